"""Checks of C16 (allocator) and C17 (unique pointers, array)."""
from .. import core

DRIVER = {"owner": ("owner_driver.cpp", [])}
BUILD = {}
OWNER = ("OwnerTrace", core.trace_cfg(invs=["OwnedOnce", "ObjectsInBlocks"]))

def neg_twice(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ct":
            return evs[:i + 1] + [e]

def neg_not_destroyed(evs):
    for i, e in enumerate(evs):
        if e["e"] == "dt":
            return evs[:i] + [x for x in evs[i + 1:i + 6]]

def neg_size(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ud" and e["a"] >= 0:
            e["sz"] += 1
            return evs[:i + 1]

def neg_leak(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ud" and e["a"] >= 0:
            return evs[:i] + evs[i + 1:]

def mc(ops, tag, types, calls, handles="{1, 2}", counts="{0, 1, 2}"):
    return dict(module="MCOwner", tag=tag, cfg="SPECIFICATION MCSpec\nCONSTANTS Ops = {%s} Handles = %s Counts = %s MaxCalls = %d Types <- %s\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT OwnedOnce\nINVARIANT ObjectsInBlocks\n"
                % (", ".join('"%s"' % o for o in ops), handles, counts, calls, types))

def from_models(ctx, jobs, limit):
    out = []
    for scripts in ctx.models(jobs):
        for i, s in enumerate(core.sample(ctx.rng("cover"), core.maximal(scripts), limit)):
            out.append(["R %d %d" % ((i + ctx.seed) % 4, i + 1)] + s[1:])
    return out

TYPES = "smwvobhV"

def random_case(r, creators, others, n):
    c = ["R %d %d" % (r.randrange(4), r.randint(1, 10**6))]
    live = []
    for h in range(1, n):
        if r.random() < 0.12:
            c.append("T %d" % r.choice([1, 1, 2, 3, 5, 8]))
        if r.random() < 0.08:
            c.append("E 1")
        if r.random() < 0.55 or not live:
            op = r.choice(creators)
            k = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 33, 100])
            t = r.choice(TYPES)
            if op == "bytes":
                c.append("bytes %d %d %d" % (h, r.choice([0, 1, 3, 8, 16, 100, 1000, 4097]), r.choice([0, 1, 2, 8, 16, 32, 64, 256, 4096])))
            elif op == "fwd":
                c.append("fwd %d" % h)
            elif op in ("rows", "arrayn"):
                c.append("%s %d %d" % (op, h, r.randrange(4) if op != "rows" else k))
            elif op[0] == "v":
                c.append("%s %d %s %d" % (op, h, r.choice("smwvohV"), r.choice([0, 1, 2, 5, 100])))
            else:
                c.append("%s %d %s %d" % (op, h, t, r.choice([0, 1]) if op in ("new", "obj") else k if op != "copy" else r.randint(0, 60)))
            live.append(h)
        else:
            op = r.choice(others)
            x = r.choice(live)
            if op in ("move", "swap"):
                # something that it can be moved to or from: prefer what was made by the same line
                mine = [l.split() for l in c if len(l.split()) > 2 and l.split()[1] == str(x) and l.split()[0] in creators]
                same = [y for y in live if mine and any(l.split()[0] == mine[0][0] and l.split()[1:3:2] == [str(y)] or (len(l.split()) > 2 and l.split()[0] == mine[0][0] and l.split()[1] == str(y) and l.split()[2] == mine[0][2]) for l in c)]
                c.append("%s %d %d" % (op, x, r.choice(same or live)))
                c.append("read %d" % x)
            elif op == "write":
                c.append("write %d %d %d" % (x, r.choice([0, 0, 1, 2, 5]), r.randint(-9, 100)))
            else:
                c.append("%s %d" % (op, x))
                if op in ("free", "die"):
                    live.remove(x)
        if live and r.random() < 0.4:
            c.append("read %d" % r.choice(live))
    for x in live:
        c.append("read %d" % x)
    return c

def few_types(r, case):
    """Restrict the types, so that pointers can be moved to each other."""
    ts = r.sample(TYPES, 2)
    out = []
    for l in case:
        w = l.split()
        if len(w) == 4 and w[0] in ("obj", "arr", "alloc", "one", "copy") and w[2] in TYPES:
            w[2] = ts[hash(w[1]) % 2 if False else int(w[1]) % 2]
        out.append(" ".join(w))
    return out

def c16(ctx):
    ctx.build(DRIVER)
    ops = ["bytes", "space", "new", "free"]
    mcs = from_models(ctx, [mc(ops, "MCOwner-allocator", "AllTypes", ctx.scale(5, 6))], ctx.scale(1500, 10000))
    r = ctx.rng("random")
    rnd = [random_case(r, ["bytes", "space", "new", "new", "fwd", "vspace"], ["free", "free", "read", "write", "null"], r.choice([8, 20, 40])) for _ in range(ctx.scale(300, 4000))]
    rnd = [[l if l.split()[0] != "null" else "null" for l in c] for c in rnd]
    ctx.family("allocator", "owner", mcs + rnd, [OWNER], from_model=len(mcs), negative=[neg_twice, neg_not_destroyed, neg_size, neg_leak])

def c17(ctx):
    ctx.build(DRIVER)
    mcs = from_models(ctx, [mc(["obj", "arr", "reset", "die", "move"], "MCOwner-objects", "OneType", ctx.scale(4, 5), counts="{0, 2}"),
                            mc(["alloc", "reset", "die", "move", "swap", "release"], "MCOwner-alloc", "OneType", ctx.scale(5, 6), counts="{0, 3}"),
                            mc(["arr", "die"], "MCOwner-arrays", "AllTypes", ctx.scale(3, 4), counts=ctx.scale("{0, 2}", "{0, 1, 3}"))], ctx.scale(1500, 10000))
    r = ctx.rng("random")
    cr = ["obj", "obj", "arr", "arr", "alloc", "one", "copy", "copy", "rows", "varr", "valloc", "array", "array", "arrayn"]
    rnd = [random_case(r, cr, ["move", "move", "swap", "reset", "release", "adopt", "die", "write", "read"], r.choice([8, 20, 40])) for _ in range(ctx.scale(300, 4000))]
    rnd += [few_types(r, random_case(r, ["obj", "arr", "arr", "alloc", "one", "copy"], ["move", "move", "move", "swap", "reset", "release", "adopt", "die", "write"], r.choice([10, 25])))
            for _ in range(ctx.scale(200, 3000))]
    ctx.family("unique pointers and arrays", "owner", mcs + rnd, [OWNER], from_model=len(mcs), negative=[neg_twice, neg_not_destroyed, neg_size, neg_leak])

CHECKS = dict(C16=c16, C17=c17)
