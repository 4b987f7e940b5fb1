"""Checks of C23 (views and iterators)."""
from .. import core
from .fixed import CE, mc, neg_bal, neg_out, neg_read, neg_seen

DRIVER = {"view": ("view_driver.cpp", []), "iter": ("iter_driver.cpp", [])}
IT = ("IteratorsTrace", core.trace_cfg(invs=["Sound"]))
ONE = "mnfbBz"
ALL1, JAG = "mnfbBzvcde", "jJgDEVWXY"
# What can be derived from what (the driver leaves out what does not apply).
FROM = dict(v="mnfbBzv", c="mnfbBzvc", d="bBzvd", e="bBzvce", D="jJ", E="jJ", V="DgV", W="DEgVW", X="DgVX", Y="DEgVWY")

def random_view(r, n):
    t = r.choice("iiypcC")
    c = ["R %s %d" % (t, r.randint(1, 10**6))]
    hs = []                              # (kind, cells, shape)
    def pick(kinds):
        xs = [i for i, h in enumerate(hs) if h[0] in kinds]
        return r.choice(xs) if xs else None
    large = r.random() < 0.06
    def shape():
        if large: return [r.choice([0, 1, 1, 2, 3]) for _ in range(r.choice([9, 17, 33]))] if r.random() < 0.8 else r.choice([[40, 0, 130], [1, 256, 2]])
        return [r.choice([0, 0, 1, 2, 3, 7]) for _ in range(r.choice([0, 1, 2, 3, 5]))]
    for _ in range(n):
        op = r.choice(["own", "sub", "sub", "sub", "sub", "cut", "zed", "row", "rows", "bind", "bind", "eqm", "eqm", "set", "set", "set", "set", "size", "mv"])
        room = len(hs) < 12
        if op == "own" and room:
            k = r.choice("mnfbBzjjJJgg")
            if k in "bBg" and t not in "iyp": continue
            if k in "jJg":
                sh = shape()
                hs.append((k, sum(sh), sh))
                c.append("own %s %s" % (k, " ".join(map(str, sh))))
            else:
                m = r.choice([1 if k == "B" else 0, 1, 2, 3, 5, 17] if not large else [33, 64, 130, 256])
                hs.append((k, m, None))
                c.append("own %s %d" % (k, m))
        elif op == "sub" and room:
            k = r.choice("vcdeDEVWXYDVX")
            o = pick(FROM[k])
            if o is None: continue
            hs.append((k, hs[o][1], hs[o][2]))
            c.append("sub %s %d" % (k, o + 1))
        elif op == "cut" and room:
            k = r.choice("vc")
            o = pick("mnfbBzvd" if k == "v" else "mnfbBzvcde")
            if o is None: continue
            m = hs[o][1]
            a = r.randint(0, m)
            l = r.choice([m - a, r.randint(0, m - a), 0])
            if r.random() < 0.3: a, l = 0, m
            hs.append((k, l, None))
            c.append("cut %s %d %d %d" % (k, o + 1, a, l))
        elif op == "zed" and room:
            k = r.choice("vc")
            o = pick("mnfbBzvd" if k == "v" else "mnfbBzvcde")
            if o is None: continue
            a = r.choice([0, 0, r.randint(0, hs[o][1])])
            l = r.choice([hs[o][1] - a, hs[o][1] - a, r.randint(0, hs[o][1] - a)])
            zs = [i for i, h in enumerate(hs) if h[0] in "Bzv" and h[1] == l]
            hs.append((k, l, None))
            c.append("zed %s %d %d %d %d" % (k, o + 1, a, l, r.choice(zs) + 1 if zs and r.random() < 0.5 else 0))
        elif op == "row" and room:
            k = r.choice("vcde")
            o = pick(dict(v="jJDgV", c="jJDgVEW", d="X", e="XY")[k])
            if o is None or not hs[o][2]: continue
            i = r.randrange(len(hs[o][2]))
            hs.append((k, hs[o][2][i], None))
            c.append("row %s %d %d" % (k, o + 1, i))
        elif op == "rows" and room:
            k = r.choice("VW")
            o = pick("DgV" if k == "V" else "DgVEW")
            if o is None: continue
            sh = hs[o][2]
            a = r.choice([0, r.randint(0, len(sh))])
            l = r.choice([len(sh) - a, r.randint(0, len(sh) - a)])
            hs.append((k, sum(sh[a:a + l]), sh[a:a + l]))
            c.append("rows %s %d %d %d" % (k, o + 1, a, l))
        elif op == "bind":
            h = pick("vcdeVWXY")
            if h is None: continue
            o = pick(dict(v="mvbBz", c="cvbBz", d="d", e="e", V="VDg", W="WVDEg", X="X", Y="Y")[hs[h][0]].replace("m", ""))
            if o is None: continue
            hs[h] = (hs[h][0], hs[o][1], hs[o][2])
            c.append("bind %d %d" % (h + 1, o + 1))
        elif op == "eqm":
            ks = r.choice(["bBzvc", "gDEVW"])
            h, o = pick(ks), pick(ks)
            if h is not None: c.append("eqm %d %d" % (h + 1, o + 1))
        elif op == "set" and hs:
            h = r.randrange(len(hs))
            if hs[h][1]: c.append("set %d %d %d" % (h + 1, r.randrange(hs[h][1]), r.choice([0, r.randint(0, 120)])))
        elif op == "size":
            h = pick("Bzv")
            if h is not None: c.append("size %d %d" % (h + 1, r.choice([0, hs[h][1], r.randint(0, hs[h][1])])))
        elif op == "mv":
            h = pick("DbBg")
            if h is not None: c.append("mv %d" % (h + 1))
    return c

def random_iter(r, n):
    flat = r.random() < 0.4
    t = r.choice("icypA")
    rows = ([1] * r.choice([33, 65, 130]) if flat else [r.choice([0, 0, 1, 2, 5]) for _ in range(r.choice([17, 33, 65]))]) if r.random() < 0.05 else [1] * r.choice([1, 2, 3, 5, 12]) if flat else [r.choice([0, 0, 1, 2, 5]) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    c = ["R %s %d %s" % (t, r.randint(1, 10**6), "flat %d" % len(rows) if flat else "jag " + " ".join(map(str, rows)))]
    N = len(rows)
    its = []                              # (kind, position or None)
    fwd = lambda k: k in "pPFG"
    d = lambda k: 1 if fwd(k) else -1
    conv = dict(p="P", r="R", F="G", s="S")
    wrap = dict(p="r", P="R", F="s", G="S")
    base = {v: k for k, v in wrap.items()}
    ks = "pPrR" if flat else "FGsS"
    def add(k, p):
        its.append((k, p))
    for _ in range(n):
        op = r.choice(["make", "make", "def", "inc", "inc", "dec", "dec", "adv", "plus", "copy", "conv", "wrap", "base", "asg", "get", "get", "get", "put", "put", "eq", "eq", "walk"])
        room = len(its) < 12
        if op in ("make", "def"):
            if not room or (op == "def" and r.random() < 0.5): continue
            k = r.choice(ks)
            w = r.randint(0, 1)
            add(k, None if op == "def" else (0 if (w == 0) == fwd(k) else N))
            c.append("def " + k if op == "def" else "make %s %d" % (k, w))
            continue
        if not its: continue
        h = r.randrange(len(its))
        k, p = its[h]
        far = lambda: r.choice([0, N - p if d(k) == 1 else p, -p if d(k) == 1 else p - N, r.randint(-N, N)])
        if op in ("inc", "dec") and p is not None:
            post = r.randint(0, 1)
            q = p + (1 if op == "inc" else -1) * d(k)
            if not 0 <= q <= N or (post and not room): continue
            its[h] = (k, q)
            if post: add(k, p)
            c.append("%s %d %d" % (op, h + 1, post))
        elif op in ("adv", "plus") and p is not None:
            m = far()
            q = p + m * d(k)
            if not 0 <= q <= N or (op == "plus" and not room): continue
            if op == "adv": its[h] = (k, q)
            else: add(k, q)
            c.append("%s %d %d" % (op, h + 1, m))
        elif op in ("copy", "conv", "wrap", "base") and room:
            m = dict(copy={k: k}, conv=conv, wrap=wrap, base=base)[op]
            if k not in m: continue
            add(m[k], p)
            c.append("%s %d" % (op, h + 1))
        elif op in ("get", "put") and p is not None and N:
            t = r.randrange(N)
            m = t - p if d(k) == 1 else p - 1 - t
            if r.random() < 0.5 and 0 <= (p if d(k) == 1 else p - 1) < N: m = 0
            c.append("%s %d %d%s" % (op, h + 1, m, " %d" % r.randint(0, 99) if op == "put" else ""))
        elif op in ("asg", "eq", "walk"):
            xs = [i for i, x in enumerate(its) if x[0] == k or conv.get(x[0]) == k]
            o = r.choice(xs)
            if op == "asg": its[h] = (k, its[o][1])
            c.append("%s %d %d" % (op, h + 1, o + 1))
    return c

def neg_eqm(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "eqm" and e["h"] == e["o"]:
            e["r"], e["q"] = e["q"], e["r"]
            return evs[:i + 1]

def neg_rows(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and any(o["sh"] != o["sh"][::-1] for o in e["obs"]):
            for o in e["obs"]:
                o["sh"] = o["sh"][::-1]
            return evs[:i + 1]

def neg_get(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "get":
            e["got"][0] += 4
            return evs[:i + 1]

def neg_pos(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "inc":
            e["obs"][e["h"] - 1] = [e["obs"][e["h"] - 1][0] + 1]
            return evs[:i + 1]

def neg_same(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "eq":
            e["r"], e["q"] = e["q"], e["r"]
            return evs[:i + 1]

def neg_walk(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "walk" and len(e["got"]) > 1 and e["got"][0] != e["got"][1]:
            e["got"].reverse()
            return evs[:i + 1]

def neg_put(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "put":
            e["vals"] = [v + 1 for v in e["vals"]]
            return evs[:i + 1]

def mci(name, kinds, rows, its, calls, move):
    return dict(module="MCIterators", tag="MCIterators-" + name,
                cfg="SPECIFICATION MCSpec\nCONSTANTS Kinds = %s Rows <- %s MaxIts = %d MaxCalls = %d MaxMove = %d Name = \"%s\"\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT Sound\nINVARIANT Laws\nINVARIANT Distinct\n"
                % (kinds, rows, its, calls, move, name))

def c23(ctx):
    ctx.build(DRIVER)
    jobs = [mc("views", ctx.scale(4, 5), ctx.scale(4, 4), Owned="ViewOwned", Derived="ViewDerived", Sized="ViewSized", Bound="ViewBound", SameMem="ViewSame",
               Writable='{"m", "z", "v", "d"}', Resizable='{"z", "v"}'),
            mc("rows", ctx.scale(4, 5), ctx.scale(4, 4), Owned="RowsOwned", Derived="RowsDerived", Bound="RowsBound", SameMem="RowsSame",
               Writable='{"j", "D", "V", "X"}')]
    itjobs = [mci("flat", '{"p", "P", "r", "R"}', "Flat2", 3, ctx.scale(3, 4), 2), mci("jag", '{"F", "G", "s", "S"}', "Jag3", 3, ctx.scale(3, 4), 3)]
    got = ctx.models(jobs + itjobs)
    mcs, mit = [], []
    for scripts, j in zip(got, jobs):
        for i, s in enumerate(core.sample(ctx.rng("cover" + j["tag"]), core.maximal(scripts), ctx.scale(2500, 20000))):
            mcs.append(["R %s %d" % ("icyCpi"[(i + ctx.seed) % 6], i + 1)] + s[1:])
    for scripts, j, head in zip(got[2:], itjobs, ("flat 2", "jag 2 0 1")):
        for i, s in enumerate(core.sample(ctx.rng("cover" + j["tag"]), core.maximal(scripts), ctx.scale(2500, 20000))):
            mit.append(["R %s %d %s" % ("icypA"[(i + ctx.seed) % 5], i + 1, head)] + s[1:])
    r = ctx.rng("views")
    rnd = [random_view(r, r.choice([10, 30, 60])) for _ in range(ctx.scale(600, 6000))]
    ctx.family("views", "view", mcs + rnd, [CE], from_model=len(mcs), negative=[neg_seen, neg_read, neg_eqm, neg_rows, neg_out, neg_bal])
    r = ctx.rng("iterators")
    rnd = [random_iter(r, r.choice([10, 30, 60])) for _ in range(ctx.scale(600, 6000))]
    ctx.family("iterators", "iter", mit + rnd, [IT], from_model=len(mit), negative=[neg_get, neg_pos, neg_same, neg_walk, neg_put])

CHECKS = dict(C23=c23)
