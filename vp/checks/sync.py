"""Checks of C13 (synchronized resource) and C14 (equality)."""
from .. import core

DRIVER = {"sync": ("sync_driver.cpp", []), "eq": ("eq_driver.cpp", [])}
SYNC = ("SyncTrace", core.trace_cfg(invs=["OneAtATime"]))
EQ = ("EqualityTrace", core.trace_cfg(invs=["EqualityInv"]))

def neg_two_inside(evs):
    for i, e in enumerate(evs):
        if e["e"] == "in":
            for j in range(i + 1, len(evs)):
                if evs[j]["e"] == "R":
                    break
                if evs[j]["e"] == "in":
                    evs[i + 1:i + 1] = [evs[j]]      # the next one comes in at once
                    return evs[:i + 2]
    return None

def neg_elsewhere(evs):
    for i, e in enumerate(evs):
        if e["e"] == "in":
            e["u"] = 1
            return evs[:i + 1]

def neg_changed(evs):
    for i, e in enumerate(evs):
        if e["e"] == "in":
            e["al"] *= 2
            return evs[:i + 1]

def neg_eq(evs):
    for i, e in enumerate(evs):
        if e["e"] == "e" and len(e["m"]) > 1:
            e["m"][0][-1] = 1 - e["m"][0][-1]
            return evs[:i + 1]

def c13(ctx):
    ctx.build({"sync": DRIVER["sync"]})
    cfg = 'SPECIFICATION MCSpec\nCONSTANTS N = %d MaxCalls = %d Name = "%d"\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT OneAtATime\n'
    live = 'SPECIFICATION MCSpec\nCONSTANTS N = 2 MaxCalls = 3 Name = "2"\nPROPERTY EveryCallReturns\n'
    jobs = [dict(module="MCSync", cfg=cfg % (2, ctx.scale(4, 6), 2), tag="MCSync-2"),
            dict(module="MCSync", cfg=cfg % (3, ctx.scale(4, 5), 3), tag="MCSync-3"),
            dict(module="MCSync", cfg=live, tag="MCSync-live")]
    rs = ctx.models(jobs)
    cases = []
    for scripts in rs[:2]:
        for s in core.sample(ctx.rng("cover"), core.maximal(scripts), ctx.scale(300, 3000)):
            cases.append(["R %s %d" % (s[0], len(cases) % 7)] + s[1:])
    n = len(cases)
    r = ctx.rng("free")
    for _ in range(ctx.scale(60, 600)):
        cases.append(["R %d %d" % (r.choice([2, 3, 4, 8]), r.randrange(7)), "F %d %d" % (r.randint(1, 10**6), r.choice([5, 20, 40]))])
    for _ in range(ctx.scale(100, 1000)):
        nt = r.choice([2, 3, 4, 6])
        c = ["R %d %d" % (nt, r.randrange(7))]
        for _ in range(r.randint(4, 30)):
            x = r.random()
            t = r.randrange(nt)
            if x < 0.4:
                c.append("c %d a %d %d" % (t, r.choice([1, 16, 100, 4096]), 1 << r.randrange(9)))
            elif x < 0.55:
                c.append("c %d d 0" % t)
            else:
                c.append("o %d %s" % (t, r.choice(["ok", "ok", "bad"])))
        cases.append(c)
    ctx.family("synchronized", "sync", cases, [SYNC], from_model=n, negative=[neg_two_inside, neg_changed, neg_elsewhere])

def c14(ctx):
    ctx.build({"eq": DRIVER["eq"]})
    cfg = "SPECIFICATION MCSpec\nCONSTANTS Kinds <- %s MaxObjs = %d\nACTION_CONSTRAINT Emit\nINVARIANT EqualityInv\n"
    rs = ctx.models([dict(module="MCEquality", cfg=cfg % ("AllKinds", 3), tag="MCEquality-all"),
                     dict(module="MCEquality", cfg=cfg % ("FewKinds", ctx.scale(4, 5)), tag="MCEquality-few")])
    cases = []
    for scripts in rs:
        for s in core.sample(ctx.rng("cover"), sorted(set(scripts)), ctx.scale(3000, 20000)):
            cases.append([x.strip() for x in s.split(";")] + ["e"])
    n = len(cases)
    r = ctx.rng("graphs")
    for _ in range(ctx.scale(300, 3000)):
        c = ["R"]
        m = r.randint(3, 14)
        for i in range(m):
            k = r.choice("HTIIISSSGNBPACXQLU") if i > 0 else r.choice("HTU")
            c.append("o %s %d" % (k, 0 if k in "UHT" else r.randint(1, i)))
        cases.append(c + ["e"])
    ctx.family("equality", "eq", cases, [EQ], from_model=n, negative=neg_eq)

CHECKS = dict(C13=c13, C14=c14)
