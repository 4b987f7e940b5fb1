"""Checks of C22 (fixed-size arrays and tuples)."""
from .. import core

DRIVER = {"fixed": ("fixed_driver.cpp", [])}
CE = ("CellsTrace", core.trace_cfg(invs=["Sound"]))
SIZES = [1, 2, 3, 5]
ARRAYS = [1, 2, 3, 5, 9, 34]                 # of arrays; tuples have the former ones

def random_case(r, n):
    c = ["R %s %d" % (r.choice("iycCAp"), r.randint(1, 10**6))]
    hs = []                                  # (kind, size)
    arrays = r.random() < 0.6
    def pick(kinds, n=None):
        xs = [i for i, h in enumerate(hs) if h[0] in kinds and (n is None or h[1] == n)]
        return r.choice(xs) if xs else None
    for _ in range(n):
        op = r.choice(["own", "own", "sub", "sub", "copy", "bind", "asg", "eqv", "near", "set", "set", "set", "set", "fill", "at", "at"])
        room = len(hs) < 11
        if op == "own" and room:
            k = r.choice("saaA" if arrays else "vtu")
            m = r.choice([0, 1, 2, 3, 5, 17, 34] if k == "a" else ARRAYS if k in "sA" else SIZES)
            hs.append((k, m))
            c.append("own %s %d" % (k, m))
        elif op == "sub" and room:
            k = r.choice("dk" if arrays else "w")
            o = pick({"d": "aAd", "k": "aAdk", "w": "v"}[k])
            if o is None: continue
            ms = [m for m in (ARRAYS if k in "dk" else SIZES) if m <= hs[o][1]]
            if k == "w": ms = [hs[o][1]]
            if not ms: continue
            m = r.choice(ms)
            hs.append((k, m))
            c.append("sub %s %d %d" % (k, o + 1, m))
        elif op == "copy" and room:
            k = r.choice("s" if arrays else "tu")
            o = pick({"s": "s"}.get(k, "tuw"))
            if o is None: continue
            hs.append((k, hs[o][1]))
            c.append("copy %s %d" % (k, o + 1))
        elif op == "near" and room and arrays:   # arrays that differ in one element at most
            o = pick("s")
            if o is None: continue
            hs.append(hs[o])
            m = hs[o][1]
            c.append("copy s %d" % (o + 1))
            c.append("set %d %d %d" % (len(hs), r.choice([0, m - 1, r.randrange(m)]), r.randint(0, 120)))
            c.append("eqv %d %d" % r.choice([(o + 1, len(hs)), (len(hs), o + 1)]))
            c.append("asg %d %d" % (len(hs), o + 1))
            c.append("eqv %d %d" % (len(hs), o + 1))
        elif op in ("bind", "asg", "eqv"):
            h = pick({"bind": "dk", "eqv": "s", "asg": "stu"}[op])
            if h is None: continue
            o = pick({"bind": hs[h][0], "eqv": "s", "asg": "s" if hs[h][0] == "s" else "tuw"}[op], hs[h][1])
            if o is not None:
                c.append("%s %d %d" % (op, h + 1, o + 1))
        elif op in ("set", "fill") and hs:
            h = r.randrange(len(hs))
            if op == "fill": c.append("fill %d %d" % (h + 1, r.randint(0, 120)))
            elif hs[h][1]: c.append("set %d %d %d" % (h + 1, r.randrange(hs[h][1]), r.choice([0, r.randint(0, 120)])))
        elif op == "at" and hs:
            h = r.randrange(len(hs))
            m = hs[h][1]
            c.append("at %d %d" % (h + 1, r.choice([0, m, m - 1 if m else 0, m + 1, r.randint(0, 20), -1, -2, 4294967295, 4294967296 + (m - 1 if m else 0), 2**62])))
    return c

def neg_seen(evs):
    """A write that is not seen through a view."""
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "set" and len(e["obs"]) > 1 and e["obs"][e["h"] - 1]["rd"] == [o for o in e["obs"] if o is not e["obs"][e["h"] - 1]][0]["rd"]:
            e["obs"][e["h"] - 1]["rd"][0][e["x"][0]] += 1
            return evs[:i + 1]

def neg_read(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["obs"] and e["obs"][0]["rd"] and len(e["obs"][0]["rd"][0]) > 1:
            e["obs"][0]["rd"].append(e["obs"][0]["rd"][0][::-1])
            return evs[:i + 1]

def neg_at(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "at" and e["thr"] == 1:
            e["thr"] = 0
            return evs[:i + 1]

def neg_eq(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "eqv":
            e["r"], e["q"] = e["q"], e["r"]
            return evs[:i + 1]

def neg_out(evs):
    for i, e in enumerate(evs):
        if e["e"] == "drop":
            e["out"] = 1
            return evs[:i + 1]

def neg_bal(evs):
    for i, e in enumerate(evs):
        if e["e"] == "drop":
            e["bal"] = -1
            return evs[:i + 1]

def mc(name, calls, handles, **k):
    d = dict(Owned="None", Derived="None", Copied="None", Sized="None", Bound="None", Assigned="None", Compared="None", SameMem="None")
    lit = dict(Writable="{}", Filled="{}", Checked="{}", Resizable="{}")
    for n, v in k.items():
        (lit if n in lit else d)[n] = v
    return dict(module="MCCells", tag="MCCells-" + name, cfg="SPECIFICATION MCSpec\nCONSTANTS MaxHandles = %d MaxCalls = %d Name = \"%s\" %s %s\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT Sound\nINVARIANT Apart\nINVARIANT SameSeen\nPROPERTY CellsKept\n"
                % (handles, calls, name, " ".join("%s = %s" % x for x in lit.items()), " ".join("%s <- %s" % x for x in d.items())))

def c22(ctx):
    ctx.build(DRIVER)
    jobs = [mc("arrays", ctx.scale(4, 5), 3, Owned="FixedOwned", Derived="FixedDerived", Copied="FixedCopied", Bound="FixedBound", Assigned="FixedAssigned", Compared="FixedAssigned",
               Writable='{"s", "a", "A", "d"}', Filled='{"s", "a", "A"}', Checked='{"s", "a", "A"}'),
            mc("tuples", ctx.scale(4, 5), 3, Owned="TupleOwned", Derived="TupleDerived", Copied="TupleCopied", Assigned="TupleCopied", Writable='{"v", "t", "u", "w"}')]
    mcs = []
    for scripts, j in zip(ctx.models(jobs), jobs):
        for i, s in enumerate(core.sample(ctx.rng("cover" + j["tag"]), core.maximal(scripts), ctx.scale(1500, 12000))):
            mcs.append(["R %s %d" % ("icyCAp"[(i + ctx.seed) % 6], i + 1)] + s[1:])
    r = ctx.rng("random")
    rnd = [random_case(r, r.choice([10, 30, 60])) for _ in range(ctx.scale(500, 6000))]
    ctx.family("fixed-size arrays and tuples", "fixed", mcs + rnd, [CE], from_model=len(mcs),
               negative=[neg_seen, neg_read, neg_at, neg_eq, neg_out, neg_bal])

CHECKS = dict(C22=c22)
