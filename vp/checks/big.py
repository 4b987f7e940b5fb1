"""Vectors, copies and structures that 32 bits can not count the bytes of; part
of the checks of C18, C24, C25, C26, C31 and C32."""
from .. import core

DRIVER = {"big": ("big_driver.cpp", [])}
BIG = ("BigTrace", core.trace_cfg(invs=["BigInv"]))
ES = dict(c=1, i=4, d=8, B=7160)
MAX = 2**32 - 1

def mc(start, ops, calls):
    name = "big-%d-%s" % (start, "".join(o[0] for o in ops))
    return dict(module="MCBig", tag="MCBig-" + name, cfg="SPECIFICATION MCSpec\nCONSTANTS Start = %d Ops = {%s} MaxCalls = %d Name = \"%s\"\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT BigInv\nINVARIANT Together\nPROPERTY CopiesRight\n"
                % (start, ", ".join('"%s"' % o for o in ops), calls, name))

def size(r, es, few=False):
    """A number of elements; their number or that of their bytes is near a power of two."""
    b = r.choice([2**31, 2**32, 2**32, 2**32, 2**33, 3 * 2**31, 2**16, 2**24])
    return max(0, min(MAX, r.choice([b // es, b // es, b // (es + 1)] + [b // 2] * (not few)) + r.choice([-3, -1, 0, 1, 2, 7, 100])))

def random(r, kinds, ops, n):
    t = "B" if "e" in kinds else r.choice("cidB")    # flat structures need memory for each element when they are made
    es = ES[t]
    out, os, pos = [], [], {0, 1}
    base = None
    def caps(k):
        if k in "ve": return [size(r, es, k == "e")]
        return [r.choice([0, 3, 200, size(r, es), size(r, es) // 2]) for _ in range(r.randint(1, 3))]
    for _ in range(r.randint(2, 4)):
        k = r.choice(kinds)
        like = [o for o in os if o[0] == k]
        if like and r.random() < 0.8:
            c = [x + r.choice([0, 0, 0, 1, -1]) for x in r.choice(like)[2]]
            c = [max(0, min(MAX, x)) for x in c]
        else:
            c = caps(k)
        rz = r.randint(0, 1)
        os.append([k, rz, c])
        out.append("%s %d %s" % (k, rz, " ".join(map(str, c))))
        for x in c:
            pos |= {p for p in (x - 1, x - 2, x // 2, 2**32 // es, 2**32 // es - 1, 2**31 // es, 2**16, 2**31 - 1, 2**31) if 0 <= p < x}
    pos = sorted(r.sample(sorted(pos), min(len(pos), 10)) )
    out.append("fill %d %d" % (1, r.randint(1, 200)))
    for _ in range(n):
        i = r.randrange(len(os))
        k, rz, c = os[i]
        j = r.randrange(len(c))
        op = r.choice(ops)
        if op == "copy":
            same = [q for q in range(len(os)) if os[q][0] == k and q != i and len(os[q][2]) == len(c)]
            if same:
                if rz and r.random() < 0.6:
                    for w in range(len(c)): out.append("sz %d %d %d" % (i + 1, w, r.choice([c[w], c[w], max(0, c[w] - 1), r.choice(pos) if r.choice(pos) <= c[w] else 0])))
                out.append("copy %d %d" % (i + 1, r.choice(same) + 1))
        elif op == "ms": out.append("ms %d %d" % (i + 1, r.randint(0, 255)))
        elif op == "sz": out.append("sz %d %d %d" % (i + 1, j, r.choice([p for p in pos if p <= c[j]] + [c[j], 0, max(0, c[j] - 1)])))
        elif op in ("pb", "pop") and k in "vj": out.append("%s %d %d %d" % (op, i + 1, j, r.randint(1, 255)))
        elif op == "ba" and k in "vj": out.append("ba %d %d %d %d" % (i + 1, j, r.choice([0, 1, 2, 5, 300]), r.randint(1, 255)))
        elif op == "rs" and k in "vj": out.append("rs %d %d %d %d" % (i + 1, j, r.choice([c[j], c[j] // 2, 0] + pos), r.randint(1, 255)))
        elif op == "di": out.append("di %d %d" % (i + 1, r.randrange(2 * len(c) + 1)))
        elif op == "dpb" and k == "e": out.append("dpb %d" % (i + 1))
        elif op == "fill": out.append("fill %d %d" % (i + 1, r.randint(1, 200)))
    return ["R %s %s" % (t, " ".join(map(str, pos)))] + out

def ops(evs, *names):
    return [(i, e) for i, e in enumerate(evs) if e["e"] == "op" and e["op"] in names]
def neg_value(evs):
    for i, e in ops(evs, "copy"):
        v = e["obs"][e["t"] - 1][0]["v"]
        if e["thr"] == "" and v and v[-1] == e["obs"][e["f"] - 1][0]["v"][-1] and e["obs"][e["f"] - 1][0]["s"] == e["obs"][e["f"] - 1][0]["c"]:
            v[-1] = (v[-1] + 1) % 256
            return evs[:i + 1]
def neg_set(evs):
    for i, e in ops(evs, "ms"):
        v = e["obs"][e["t"] - 1][-1]["v"]
        if v:
            v[-1] = (v[-1] + 1) % 256
            return evs[:i + 1]
def neg_result(evs):
    for i, e in ops(evs, "pb", "ba", "pop", "dpb"):
        if e["res"][0][0] >= 127:
            e["res"][0][0] -= 127
            return evs[:i + 1]
        e["res"][0][1] += 1
        return evs[:i + 1]
def neg_look(evs):
    for i, e in ops(evs, "di"):
        e["res"][-1] = [0, 0]
        return evs[:i + 1]
def neg_inside(evs):
    for i, e in ops(evs, "make"):
        e["in"] = 0
        return evs[:i + 1]
def neg_outside(evs):
    for i, e in ops(evs, "copy", "ms"):
        e["oob"] = 1
        return evs[:i + 1]

COPY = [neg_value, neg_set, neg_outside]
def family(ctx, name, starts, kinds, names, negative, calls=2, nmc=60, nrnd=40):
    ctx.build(DRIVER)
    mcs = []
    jobs = [mc(s, names, ctx.scale(calls, calls + 1)) for s in starts]
    for scripts, j in zip(ctx.models(jobs), jobs):
        for s in core.sample(ctx.rng("big" + j["tag"]), core.maximal(scripts), ctx.scale(nmc, 10 * nmc)):
            mcs.append([x for x in s[1:] if x])
    r = ctx.rng("big" + name)
    rnd = [random(r, kinds, names + ["fill"] + ["copy", "sz"] * ("copy" in names), r.choice([4, 8, 12])) for _ in range(ctx.scale(nrnd, 12 * nrnd))]
    ctx.family(name, "big", mcs + rnd, [BIG], from_model=len(mcs), negative=negative)

def many(r, names, n):
    """Jagged vectors with more than 2^16 rows."""
    k, rows = r.randint(2, 6), 65540 + r.randrange(5000)
    base = [r.choice([0, 1, 2, 3, 7, 200]) for _ in range(k)]
    out, os = ["R %s 0 1 2 6 199" % r.choice("cid")], []
    for _ in range(r.randint(2, 3)):
        os.append([r.randint(0, 1), base if r.random() < 0.5 else [max(0, x + r.choice([0, 0, 0, 1, 2, -1])) for x in base]])
        out.append("m %d %d %s" % (os[-1][0], rows, " ".join(map(str, os[-1][1]))))
    out += ["fill %d %d" % (i + 1, r.randint(1, 200)) for i in range(len(os))]
    for _ in range(n):
        i, w = r.randrange(len(os)), r.randrange(k)
        rz, c = os[i]
        op = r.choice(names)
        if op == "copy":
            for v in range(k if rz else 0): out.append("sz %d %d %d" % (i + 1, v, r.randint(0, c[v])))
            out.append("%s %d %d" % (r.choice(["copy", "copy", "via"]), i + 1, r.choice([j for j in range(len(os)) if j != i]) + 1))
        elif op == "ms": out.append("ms %d %d" % (i + 1, r.randint(0, 255)))
        elif op == "di": out.append("di %d %d" % (i + 1, w))
        elif op == "sz": out.append("sz %d %d %d" % (i + 1, w, r.randint(0, c[w])))
    return out
def rows(ctx, names, negative, n=12):
    r = ctx.rng("rows" + "".join(names))
    ctx.family("jagged vectors of more than 2^16 rows", "big", [many(r, names, r.choice([3, 5, 8])) for _ in range(ctx.scale(n, 10 * n))], [BIG], negative=negative)

def made(ctx):
    family(ctx, "buffers of more than 2^32 bytes", [2, 3], "vj", ["sz", "di"], [neg_inside, neg_look], calls=1, nmc=20, nrnd=60)
    rows(ctx, ["di", "sz"], [neg_inside, neg_look])
def appended(ctx):
    family(ctx, "device vectors of more than 2^31 elements", [1, 2, 3], "vvj", ["sz", "pb", "pop", "ba", "rs", "di"], [neg_result, neg_look])
def copied1(ctx):
    family(ctx, "copies of more than 2^32 bytes", [1, 2], "v", ["copy", "ms", "sz"], COPY)
def copiedj(ctx):
    family(ctx, "jagged copies of more than 2^32 bytes", [3], "j", ["copy", "ms", "sz"], COPY)
    rows(ctx, ["copy", "copy", "ms", "sz"], [neg_set, neg_outside])
def structured(ctx):
    family(ctx, "structures of more than 2^32 bytes", [4, 5, 6], "ef", ["dpb", "di", "sz"], [neg_result, neg_look, neg_inside])
def scopied(ctx):
    family(ctx, "copies of structures of more than 2^32 bytes", [4, 5, 6], "ef", ["copy", "ms", "sz"], COPY)
CHECKS = {}
