"""Checks of the memory resources: C01 - C12, C15."""
import json
from .. import core, gen_alloc as G

DRIVER = {"alloc": ("alloc_driver.cpp", [])}

def guards(*g):
    return "{" + ", ".join('"%s"' % x for x in g) + "}"

def heap(*g):
    return ("HeapTrace", core.trace_cfg("Guards = " + guards(*g)))

def simple(name, consts="", inv=()):
    return (name + "Trace", core.trace_cfg(consts, inv))

POOL, BUDDY, ARENA = simple("Pool", inv=["PoolInv"]), simple("Buddy", inv=["BuddyInv"]), simple("Arena", inv=["ArenaInv"])
CONTIG, ROUTE, DEBUG = simple("Contig", inv=["ContigInv"]), simple("Route", inv=["RouteInv"]), simple("Debug", inv=["DebugInv"])

# ------------------------------------------------------------- the models
def mc(module, name, consts, tag, prop="Contract", extra=""):
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS %s\nVIEW MCView\nCONSTRAINT Bound\nACTION_CONSTRAINT Emit\nINVARIANT Inv\nPROPERTY %s\n%s"
           % (('Name = "%s" ' % name) + consts, prop, extra))
    return dict(module=module, cfg=cfg, tag=tag)

def mc_pool(ctx, which):
    opts = {"A": "1,1,4,1024,16,64,16,1,4,4", "B": "2,64,3,512,32,32,16,1,2,2", "C": "1,1,2,128,16,64,8,0,16,16",
            "D": "4,64,4,80,16,16,16,1,2,2", "E": "4,64,5,64,16,16,16,1,2,2"}
    j = mc("MCPool", "", "OptSeq <- Opt%s Requests <- Requests%s MaxLive = %d MaxDepth = %d MaxFaults = 1"
           % ((which, which) + ((6, ctx.scale(9, 11)) if which in "DE" else (3, ctx.scale(6, 8)))), "MCPool-" + which)
    j["cfg"] = j["cfg"].replace('Name = ""', 'OptName = "P[%s](U0)"' % opts[which])
    return j

def mc_buddy(ctx, which):
    return mc("MCBuddy", "B(U0)", "Requests <- Requests%s MaxLive = %d MaxDepth = %d MaxFaults = 1" % (which, 4, ctx.scale(5, 6)), "MCBuddy-" + which)

def mc_arena(ctx, which):
    init, mx = {"A": (1024, 1000192), "B": (2048, 600064)}[which]
    return mc("MCArena", "A[%d,%d](U0)" % (init, mx), "Requests <- Requests%s MaxLive = 4 MaxDepth = %d MaxFaults = 1 InitSize = %d MaxSize = %d"
              % (which, ctx.scale(6, 7), init, mx), "MCArena-" + which)

def mc_contig(ctx, size=64):
    return mc("MCContig", "C[%d](U0)" % size, "Requests <- RequestsA MaxLive = 4 MaxDepth = %d MaxFaults = 0 Size = %d" % (ctx.scale(6, 7), size), "MCContig-%d" % size)

def mc_route(ctx, kind, kids, req="A"):
    d = {"X": 8, "Q": 8, "L": 6, "I": 6, "S": 6, "T": 3}[kind]
    name = {"K1": "%s(U0)", "K2": "%s(U0,U1)", "K3": "%s(U0,U1,U2)", "K3r": "%s(U2,U0,U1)"}[kids] % kind
    return mc("MCRoute", name, 'Requests <- Requests%s MaxLive = 3 MaxDepth = %d MaxFaults = 2 Kind = "%s" Kids <- %s' % (req, ctx.scale(d, d + 2), kind, kids), "MCRoute-" + name)

def mc_debug(ctx):
    return mc("MCDebug", "G(U0)", "Requests <- RequestsA MaxLive = 3 MaxDepth = %d MaxFaults = 1 Places <- PlacesA" % ctx.scale(6, 8), "MCDebug", "Honest")

def mc_instr(ctx):
    return mc("MCInstr", "N(U0)", 'Requests <- RequestsA MaxLive = 2 MaxDepth = %d MaxFaults = 1 InstrGuards = {"events", "monitor"}' % ctx.scale(6, 8), "MCInstr", "Honest")

def model_cases(ctx, jobs, limit, policies=(0, 1, 2, 3)):
    """Cases from the transition covers of models, one placement policy each,
    going round."""
    out = []
    for scripts in ctx.models(jobs):
        ss = core.maximal(scripts)
        ss = core.sample(ctx.rng("cover"), ss, limit)
        for i, s in enumerate(ss):
            expr, ops = s[0], s[1:]
            c = [G.header(expr, policies[(i + ctx.seed) % len(policies)], 1 + i % 97)] + list(ops)
            if c[-1] != "D":
                if expr[0] == "N":
                    c += ["g", "G"]
                c.append("D")
            out.append(c)
    return out

def random_cases(ctx, kinds, n, salt="", **kw):
    r = ctx.rng("random" + salt)
    return [G.scenario(r, kind=k, **kw) for k in kinds for _ in range(n)]

def flat(r, kind):
    """A resource of the given kind directly on top of recording upstreams."""
    if kind == "P":
        return "P(U0)" if r.random() < 0.1 else "P[%s](U0)" % ",".join(map(str, G.pool_opts(r)))
    if kind == "A":
        init = r.choice([256, 512, 1024, 2560, 4096, 20480, 262144, 262400, 524288, 1 << 20])
        return "A[%d,%d](U0)" % (init, r.choice([init, init * 2, init + 262144, init + 262144, init + 524288, init + 600064, 1 << 30, 1 << 30, 1 << 25]))
    if kind == "C":
        return "C[%d](U0)" % r.choice([1, 16, 64, 100, 256, 1000, 1024, 4096, 10000, 65536, 1 << 20])
    if kind in "XL":
        return kind + r.choice(["(U0)", "(U0,U1)", "(U1,U0)", "(U0,U1,U2)", "(U2,U0,U1)"])
    return kind + "(U0)"

def flat_cases(ctx, kind, n, salt="", **kw):
    r = ctx.rng("flat" + kind + salt)
    return [G.scenario(r, expr=flat(r, kind), **kw) for _ in range(n)]

# ------------------------------------------------------ negative controls
def _first(evs, pred):
    for i, e in enumerate(evs):
        if pred(i, e):
            return i
    return None

def neg_overlap(evs):
    for i in range(1, len(evs)):
        p, e = evs[i - 1], evs[i]
        if p["e"] == e["e"] == "a" and p["r"] == e["r"] == "ok":
            e["a"] = p["a"]
            return evs[:i + 1]

def neg_misaligned(evs):
    i = _first(evs, lambda i, e: e["e"] == "a" and e["r"] == "ok" and e["al"] > 1)
    if i is None:
        return None
    if isinstance(evs[i]["a"], list):
        evs[i]["a"][1] ^= 1
    else:
        evs[i]["a"] += evs[i]["al"] // 2
    return evs[:i + 1]

def neg_leak(evs):
    i = _first(evs, lambda i, e: e["e"] == "D" and len(e["ups"]) > 0)
    if i is None:
        return None
    evs[i]["ups"].pop()
    return evs[:i + 1]

def neg_null(evs):
    i = _first(evs, lambda i, e: e["e"] == "a" and e["r"] == "ok")
    if i is None:
        return None
    evs[i]["a"] = [0, 0] if isinstance(evs[i]["a"], list) else -1
    return evs[:i + 1]

def neg_short(evs):
    """The last block has one usable byte less than was asked for."""
    i = _first(evs, lambda i, e: e["e"] == "a" and e["r"] == "ok" and e.get("av", -1) > 0)
    if i is None:
        return None
    evs[i]["av"] = evs[i]["sz"] - 1
    return evs[:i + 1]

def neg_trivial(evs):
    i = _first(evs, lambda i, e: e["e"] in "zn")
    if i is None:
        return None
    evs[i]["ups"] = [dict(k="a", n=0, sz=16, al=16, r="ok", a=4096)]
    return evs[:i + 1]

def neg_extra_upstream(evs):
    """The last successful allocation that needed no upstream call makes one."""
    i = _first(evs, lambda i, e: e["e"] == "a" and e["r"] == "ok" and not e["ups"])
    if i is None:
        return None
    a = evs[i]
    a["ups"] = [dict(k="a", n=0, sz=1 << 20, al=256, r="ok", a=a["a"] - a["a"] % 256)]
    return evs[:i + 1]

def neg_shift(evs):
    i = _first(evs, lambda i, e: e["e"] == "a" and e["r"] == "ok" and e["al"] <= 256)
    if i is None:
        return None
    evs[i]["a"] += 1
    return evs[:i + 1]

def neg_owner(evs):
    i = _first(evs, lambda i, e: e["e"] == "d" and any(u["k"] == "d" for u in e["ups"]))
    if i is None:
        return None
    for u in evs[i]["ups"]:
        if u["k"] == "d":
            u["n"] += 1
    return evs[:i + 1]

def neg_unflagged(evs):
    i = _first(evs, lambda i, e: e["e"] == "d" and e["r"] == "logic")
    if i is None:
        return None
    evs[i]["r"] = "ok"
    return evs[:i + 1]

def neg_hook(evs):
    i = _first(evs, lambda i, e: e["e"] in "ad" and len(e.get("hk", [])) > 0)
    if i is None:
        return None
    evs[i]["hk"].pop()
    return evs[:i + 1]

def neg_time(evs):
    i = _first(evs, lambda i, e: e["e"] in "ad" and e.get("tm", [0])[0] > 50000)
    if i is None:
        return None
    evs[i]["tm"][1] = evs[i]["tm"][0] // 1000
    return evs[:i + 1]

def neg_stat(evs):
    i = _first(evs, lambda i, e: e["e"] == "G" and e["mon"])
    if i is None:
        return None
    evs[i]["mon"][0]["max"][1] += 1
    return evs[:i + 1]

# ----------------------------------------------------------------- checks
KEEPERS = "PABC"
ALLKINDS = "PABCISGNXQL"

def keeper_models(ctx):
    return [mc_pool(ctx, "A"), mc_buddy(ctx, "A"), mc_arena(ctx, "A"), mc_contig(ctx)]

def c01(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, keeper_models(ctx), ctx.scale(1500, 6000))
    rnd = random_cases(ctx, KEEPERS, ctx.scale(90, 900), faults=0.04, huge=0.01)
    ctx.family("caching resources", "alloc", mcs + rnd, [heap("place", "data")], from_model=len(mcs), negative=neg_overlap)

def c02(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, keeper_models(ctx), ctx.scale(800, 6000), policies=(0, 0, 1, 2))
    rnd = random_cases(ctx, ALLKINDS, ctx.scale(40, 500), faults=0.02)
    ctx.family("resources and stacks", "alloc", mcs + rnd, [heap("align")], from_model=len(mcs), negative=neg_misaligned)
    r = ctx.rng("host")
    hs = [G.scenario(r, expr=r.choice(["H", "I(H)", "S(H)", "P(H)", "B(H)", "A[4096,1073741824](H)", "C[65536](H)", "G(H)", "N(H)", "X(H,H)", "P(B(H))", "I(A[262144,1073741824](H))"]), moves=0) for _ in range(ctx.scale(150, 1500))]
    ctx.family("on host memory", "alloc", hs, [("HostTrace", core.trace_cfg('HostGuards = {"align"}'))], negative=neg_misaligned)

def c03(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, keeper_models(ctx), ctx.scale(1200, 6000))
    rnd = random_cases(ctx, KEEPERS, ctx.scale(80, 800), faults=0.05, huge=0.02, moves=0.12) + random_cases(ctx, "ISGNXQL", ctx.scale(20, 200), faults=0.05, moves=0.1)
    ctx.family("resources and stacks", "alloc", mcs + rnd, [heap("return")], from_model=len(mcs), negative=neg_leak)

def twins(ctx, exe, cases):
    """Each case that had failing requests is followed by itself without these."""
    tf = ctx.drive(exe, cases, "pretwin")
    evs = [json.loads(l) for l in open(tf, errors="replace")]
    groups, cur = [], None
    for e in evs:
        if e["e"] == "R":
            cur = []
            groups.append((e, cur))
        elif cur is not None and e["e"] not in ("end",):
            cur.append(e)
    out, n = [], 0
    for c, (hd, ev) in zip(cases, groups):
        res = {e["ln"]: e["r"] for e in ev if e["e"] == "a"}      # by line of the script
        if hd["r"] != "ok" or all(x == "ok" for x in res.values()):
            out.append(c)
            continue
        t, failed = [c[0] + " twin"], set()
        for i, l in enumerate(c):
            w = l.split()
            if i == 0:
                continue
            if w[0] == "a" and i in res:
                if res[i] != "ok":
                    failed.add(w[1])
                    if t[-1].startswith("E"):
                        t.pop()
                    continue
                failed.discard(w[1])
            elif w[0] == "d" and w[1] in failed:
                continue
            t.append(l)
        out.append(list(c) + t)
        n += 1
    return out, n

def c04(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, keeper_models(ctx), ctx.scale(1200, 6000))
    mcs = [c for c in mcs if any(l.startswith("E") for l in c)] + core.sample(ctx.rng("rest"), [c for c in mcs if not any(l.startswith("E") for l in c)], 300)
    rnd = random_cases(ctx, ALLKINDS, ctx.scale(45, 450), faults=0.12, huge=0.12)
    cases, n = twins(ctx, "alloc", mcs + rnd)
    ctx.cov["twin_scenarios"] = n
    if n < 20:
        raise core.CheckError("too few scenarios with failing requests: %d" % n)
    ctx.family("failing requests, with twins", "alloc", cases, [heap("result", "data")], from_model=len(mcs), negative=neg_null)
    # What a failed request may have changed, against the precise specifications.
    for kind, spec in (("P", POOL), ("B", BUDDY), ("A", ARENA), ("C", CONTIG)):
        cs = flat_cases(ctx, kind, ctx.scale(100, 1500), "failing", faults=0.2, huge=0.08)
        m = [c for c in mcs if c[0].split()[3][0] == kind and any(l.startswith("E") for l in c)]
        m = core.sample(ctx.rng("failing" + kind), m, ctx.scale(150, 2000))
        ctx.family("failing requests, precisely: " + kind, "alloc", m + cs, [spec], from_model=len(m), negative=neg_null)
    r = ctx.rng("host")
    hs = [G.scenario(r, expr=r.choice(["H", "H", "I(H)", "S(H)", "P(H)", "B(H)", "A[4096,1073741824](H)", "G(H)", "N(H)"]), huge=0.3, moves=0) for _ in range(ctx.scale(100, 1000))]
    ctx.family("on host memory", "alloc", hs, [("HostTrace", core.trace_cfg('HostGuards = {"result", "place"}'))], negative=neg_null)

def bad_pool_opts(r):
    o = G.pool_opts(r)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(10)
        o[i] = r.choice([0, 1, 3, 16, 17, 24, 64, 1000, 1024, 4096, 1 << 16, 1 << 20, 1 << 26, 1 << 29, o[i] * 2, o[i] + 1, o[r.randrange(7)]])
        o[i] = min(o[i], 1 << 29)
    o[7] = o[7] % 2
    o[6] = o[6] or 1        # an alignment of zero means nothing
    return o

def c05(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_pool(ctx, w) for w in "ABCDE"], ctx.scale(2500, 20000))
    rnd = flat_cases(ctx, "P", ctx.scale(250, 2500), faults=0.03)
    r = ctx.rng("growth")
    rnd += [G.growth(r) for _ in range(ctx.scale(150, 2000))]
    r = ctx.rng("options")
    opt = [G.scenario(r, expr="P[%s](U0)" % ",".join(map(str, bad_pool_opts(r))), nops=5) for _ in range(ctx.scale(400, 3000))]
    ctx.family("pools", "alloc", mcs + rnd + opt, [POOL], from_model=len(mcs), negative=[neg_extra_upstream, neg_shift])

def c06(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_buddy(ctx, "A"), mc_buddy(ctx, "B")], ctx.scale(2500, 20000))
    rnd = flat_cases(ctx, "B", ctx.scale(200, 2500), faults=0.03, huge=0.02)
    ctx.family("binary pages", "alloc", mcs + rnd, [BUDDY], from_model=len(mcs), negative=[neg_extra_upstream, neg_shift])

def c07(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_arena(ctx, "A"), mc_arena(ctx, "B")], ctx.scale(2500, 20000))
    rnd = flat_cases(ctx, "A", ctx.scale(250, 2500), faults=0.03, huge=0.02)
    ctx.family("arenas", "alloc", mcs + rnd, [ARENA], from_model=len(mcs), negative=[neg_extra_upstream, neg_shift])

def c08(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_contig(ctx), mc_contig(ctx, 100)], ctx.scale(3000, 20000))
    rnd = flat_cases(ctx, "C", ctx.scale(250, 2500), faults=0.05, huge=0.05)
    ctx.family("contiguous", "alloc", mcs + rnd, [CONTIG], from_model=len(mcs), negative=[neg_shift, neg_leak])

def routing_noise(r, kind, nups, case):
    """Upstreams that break and heal in between."""
    out = []
    for l in case:
        if l[0] in "ad" and r.random() < 0.15:
            out.append("K %d %d" % (r.randrange(nups), r.random() < 0.5))
        out.append(l)
    return out

def c09(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_route(ctx, "X", "K2"), mc_route(ctx, "Q", "K1"), mc_route(ctx, "L", "K3r"), mc_route(ctx, "L", "K1")], ctx.scale(3000, 20000))
    r = ctx.rng("noise")
    rnd = []
    for k in "XQL":
        rnd += [routing_noise(r, k, 3, c) for c in flat_cases(ctx, k, ctx.scale(120, 1500), faults=0.1, huge=0.02)]
    ctx.family("routing", "alloc", mcs + rnd, [ROUTE], from_model=len(mcs), negative=neg_owner)

def debug_scenario(r):
    """A client that misbehaves now and then, and an upstream that does too."""
    sizes = [r.choice([1, 8, 16, 24, 64, 100, 256, 1000]) for _ in range(3)]
    out = [G.header("G(U0)", r.choice([0, 1, 1, 2, 3]), r.randint(1, 9999))]
    live, nid = [], 0
    base = 4096 * r.randint(2, 2000)
    for _ in range(r.choice([8, 20, 40])):
        x = r.random()
        if x < 0.45 or not live:
            nid += 1
            sz, al = r.choice(sizes), r.choice([1, 2, 4, 8, 16, 64])
            if r.random() < 0.4:
                out.append("O %d" % (base + r.choice([0, 1, 8, 15, 16, 17, 24, 63, 64, 65, 100, 128, 200, 256])))
            if r.random() < 0.05:
                out.append("E 1")
            out.append("a %d %d %d" % (nid, sz, al))
            live.append(nid)
        elif x < 0.7:
            out.append("d %d" % live.pop(r.randrange(len(live))))
        elif x < 0.9:
            j = r.choice(live)
            out.append("x %d %d %d %d" % (j, r.choice(sizes + [s + 1 for s in sizes]), r.choice([1, 2, 4, 8, 16, 64]), r.choice([0, 0, 0, 1, 8, -1, 16])))
        elif x < 0.95:
            out.append("y %d %d %d" % (base + r.choice([0, 8, 16, 64, 300]), r.choice(sizes), r.choice([1, 8, 16])))
        else:
            out.append(r.choice(["m", "M", "z 16", "n 0 1"]))
    return out + ["D"]

def c10(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_debug(ctx)], ctx.scale(3500, 30000))
    r = ctx.rng("debug")
    rnd = [debug_scenario(r) for _ in range(ctx.scale(500, 5000))] + flat_cases(ctx, "G", ctx.scale(40, 400), faults=0.05)
    ctx.family("debug", "alloc", mcs + rnd, [DEBUG], from_model=len(mcs), negative=neg_unflagged)

def instr_cases(ctx, salt, n, hooks, monitors):
    r = ctx.rng(salt)
    out = []
    for _ in range(n):
        big = monitors and r.random() < 0.15
        if big:      # totals beyond 32 bits
            c = [G.header("N(U0)", 3, 1)] + ["o"]
            for i in range(r.randint(3, 25)):
                c += ["a %d %d 16" % (i + 1, r.randint(100 << 20, 590 << 20))] + (["G"] if r.random() < 0.3 else [])
                if i % 3 == 2:
                    c += ["d %d" % j for j in (i - 1, i, i + 1)]
            out.append(c + ["G", "D"])
            continue
        c = G.scenario(r, expr="N(U0)", faults=0.1, moves=0, trivial=0)
        o, live = [c[0]], 0
        pre = []
        if monitors:
            pre += ["o"] * r.choice([0, 1, 1, 2, 3])
        if hooks:
            pre += ["h " + r.choice(["pre", "post", "dea"]) for _ in range(r.choice([0, 1, 2, 4, 6]))]
        r.shuffle(pre)
        o += pre
        for l in c[1:]:
            if hooks and r.random() < 0.05:
                o.append("h " + r.choice(["pre", "post", "dea"]))
            if r.random() < (0.3 if monitors else 0.1):
                o.append("G" if monitors else "g")
            if l == "D":
                o += ["g", "G"]
            o.append(l)
        out.append(o)
    return out

def c11(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_instr(ctx)], ctx.scale(3000, 20000))
    rnd = instr_cases(ctx, "hooks", ctx.scale(250, 2500), True, False)
    ctx.family("instrumenting", "alloc", mcs + rnd, [simple("Instr", 'InstrGuards = {"events"}')], from_model=len(mcs), negative=[neg_hook, neg_time])

def c12(ctx):
    ctx.build(DRIVER)
    mcs = [c for c in model_cases(ctx, [mc_instr(ctx)], 10**9) if "o" in c]
    mcs = core.sample(ctx.rng("c12"), mcs, ctx.scale(2500, 20000))
    mcs = [[x for l in c for x in ((l, "G") if l[0] in "ad" else (l,))] for c in mcs]
    rnd = instr_cases(ctx, "monitors", ctx.scale(300, 3000), False, True)
    ctx.family("monitored", "alloc", mcs + rnd, [simple("Instr", 'InstrGuards = {"monitor"}', ["InstrInv"])], from_model=len(mcs), negative=neg_stat)

def c15(ctx):
    ctx.build(DRIVER)
    mcs = model_cases(ctx, [mc_route(ctx, "I", "K1", "T"), mc_route(ctx, "S", "K1", "T"), mc_route(ctx, "T", "K1", "T")], ctx.scale(2000, 20000))
    for c in mcs:
        if c[0].split()[3].startswith("T"):
            c[0] = G.header("T", 0, 1)
    rnd = []
    for k in "IS":
        rnd += flat_cases(ctx, k, ctx.scale(60, 600), faults=0.1, trivial=0.2, huge=0.03)
    r = ctx.rng("T")
    rnd += [G.scenario(r, expr="T", nops=12, trivial=0.3) for _ in range(40)]
    ctx.family("pass-through", "alloc", mcs + rnd, [ROUTE], from_model=len(mcs), negative=neg_owner)
    triv = random_cases(ctx, ALLKINDS, ctx.scale(40, 400), "trivial", faults=0.03, trivial=0.35)
    ctx.family("trivial requests", "alloc", triv, [heap("trivial")], negative=neg_trivial)
    hs = [G.scenario(r, expr=r.choice(["H", "H", "I(H)", "S(H)"]), trivial=0.2, moves=0) for _ in range(ctx.scale(150, 1500))]
    ctx.family("host", "alloc", hs, [("HostTrace", core.trace_cfg('HostGuards = {"place", "trivial", "result"}'))], negative=neg_short)

CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C15=c15)
