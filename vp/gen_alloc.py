"""Random scripts for harness/alloc_driver.cpp."""
import random

KEEPERS = set("PABC")

def parse(expr):
    """expr -> (kind, args, children)"""
    pos = [0]
    def p():
        k = expr[pos[0]]; pos[0] += 1
        if k == "U":
            pos[0] += 1
            return ("U", [], [])
        args, kids = [], []
        if pos[0] < len(expr) and expr[pos[0]] == "[":
            j = expr.index("]", pos[0])
            args = [int(x) for x in expr[pos[0] + 1:j].split(",") if x]
            pos[0] = j + 1
        if pos[0] < len(expr) and expr[pos[0]] == "(":
            pos[0] += 1
            while expr[pos[0]] != ")":
                kids.append(p())
                if expr[pos[0]] == ",":
                    pos[0] += 1
            pos[0] += 1
        return (k, args, kids)
    return p()

def keeps(t):
    k, _, kids = t
    if k in KEEPERS:
        return True
    if k == "U":
        return False
    return all(keeps(c) for c in kids)      # T and H have no children

def refuses(t):
    k, _, kids = t
    return k in "CQTA" or any(refuses(c) for c in kids)

def direct(t):
    return all(not (kinds(c) & KEEPERS) for c in t[2])

def kinds(t):
    k, _, kids = t
    return {k}.union(*[kinds(c) for c in kids]) if kids else {k}

def header(expr, policy, seed, extra=""):
    t = parse(expr)
    return "R %d %d %s%s%s%s" % (policy, seed, expr, " keeps" if keeps(t) else "", " refuses" if refuses(t) else "", (" direct" if direct(t) else "") + extra)

def pool_opts(r):
    while True:
        smallest = r.choice([16, 16, 16, 32, 64, 256, 8])
        largest = smallest << r.choice([0, 1, 2, 3, 5, 8, 12])
        align = min(smallest, r.choice([1, 8, 16, 16, 32, 64]))
        minb = r.choice([1, 1, 2, 3, 4, 16, 5])
        minB = r.choice([1, largest, largest * 2, 64, 1024, 16])
        maxb = r.choice([minb, minb + 1, minb * 2, minb * 5 + 3, 1 << 20])
        maxB = r.choice([largest * maxb, largest * minb, largest * (minb + 2), 1 << 30, largest * minb * 3])
        if maxB > (1 << 30) or minb > maxb or minB > maxB or minb * largest > maxB or maxb * smallest < minB or maxb * largest < minB:
            continue
        cache = r.choice([1, 1, 1, 0])
        return [minb, minB, maxb, maxB, smallest, largest, align, cache, r.choice([16, 2, 1, 4, 3, 1000]), r.choice([16, 2, 1, 4, 64])]

def growth(r):
    """A pool asked for so many blocks of a size or two that its chunks grow to their limits."""
    while True:
        small = r.choice([8, 16, 16, 32, 64])
        large = small << r.choice([0, 0, 1, 2])
        minb = r.choice([2, 2, 3, 4, 5, 6, 8, 8, 10, 12])
        maxb = minb + r.choice([0, 1, 2, 3, 5, 8, 20, 1000])
        maxB = large * (minb + r.choice([0, 1, 2, 3, 4, 6, 10, 30, 1000])) + r.choice([0, 0, 1, small // 2, small])
        minB = r.choice([1, large, large * minb, large * minb + 1])
        if minB > maxB or minb * large > maxB or maxb * small < minB or maxb * large < minB:
            continue
        break
    o = [minb, minB, maxb, maxB, small, large, r.choice([small, small, 8, 1]), 1, 16, 16]
    o[6] = min(o[6], small)
    sizes = [r.choice([small, large, small - 1, max(1, large // 2 + 1)]) for _ in range(r.choice([1, 1, 2]))]
    live, out, n = [], [], 1
    for _ in range(r.randint(8, 3 * minb + 12)):
        if live and r.random() < 0.08:
            out.append("d %d" % live.pop(r.randrange(len(live))))
        else:
            if r.random() < 0.03:
                out.append("E 1")
            out.append("a %d %d 1" % (n, r.choice(sizes)))
            live.append(n); n += 1
    return [header("P[%s](U0)" % ",".join(map(str, o)), 0, r.randint(1, 1 << 16))] + out + r.choice([[], ["D"]])

def gen_expr(r, kind=None, depth=0, leaves=None):
    """A random stack of resources with the given kind at its root."""
    if leaves is None:
        leaves = [0]
    def leaf():
        n = leaves[0]; leaves[0] += 1
        return "U%d" % n
    def child(safe=True):
        if depth >= 2 or leaves[0] >= 3 or r.random() < 0.6:
            return leaf()
        return gen_expr(r, r.choice("PBISGNPXLIS"), depth + 1, leaves)
    k = kind or r.choice("PABCISGNXQL")
    if k == "P":
        o = pool_opts(r)
        return "P(%s)" % child() if r.random() < 0.15 else "P[%s](%s)" % (",".join(map(str, o)), child())
    if k == "A":
        init = r.choice([256, 512, 1024, 2560, 4096, 20480, 262144, 262400, 524288, 1 << 20])
        mx = r.choice([init, init * 2, init + 262144, init + (1 << 20), 1 << 30, 1 << 30, 1 << 30, 1 << 25])
        return "A[%d,%d](%s)" % (init, mx, child())
    if k == "C":
        return "C[%d](%s)" % (r.choice([1, 16, 64, 100, 256, 1000, 1024, 4096, 10000, 65536, 1 << 20]), child())
    if k in "BISGNQ":
        return "%s(%s)" % (k, child())
    n = r.choice([1, 2, 2, 3])
    return "%s(%s)" % (k, ",".join(child() for _ in range(n)))

def sizes_for(t, r):
    """A size generator biased to the boundaries that matter to the stack."""
    ks = kinds(t)
    marks = [1, 2, 8, 16, 17, 24, 100, 255, 256, 257, 1000, 1024, 4096, 5000]
    def walk(n):
        k, a, kids = n
        if k == "P":
            o = a if len(a) >= 10 else [16, 1024, 1 << 20, 1 << 30, 16, 1 << 20, 16, 1, 16, 16]
            s, L = o[4], o[5]
            b = max(1, s)
            while b <= L:
                marks.extend([b, b + 1, b - 1 if b > 1 else 1])
                b *= 2
            marks.extend([L + 1, L * 2, L * 2 + 5, L * 3, L * 4 + 1, L * o[8] if o[8] < 50 else L, L + 1, L * 2, L * 3 + 7])
        elif k == "A":
            i = a[0]
            marks.extend([i, i - 1, i + 1, i // 2, 262144, 262143, 262145, 300000, 600000, i + 300, 200000, 256, 512, 768, 1024])
        elif k == "B":
            marks.extend([256, 257, 512, 1024, 2048, 4096, 4097, 8192, 65536, 65537, 1 << 17, 1 << 18, 1 << 19, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 19) + 1, 3 << 19])
        elif k == "C":
            s = a[0]
            marks.extend([s, s + 1, max(1, s - 1), max(1, s // 2), max(1, s // 3), max(1, s // 4), max(1, s // 10)])
        for c in kids:
            walk(c)
    walk(t)
    focus = [r.choice(marks) for _ in range(r.choice([2, 3, 4, 6]))]
    def size():
        x = r.random()
        if x < 0.6:
            return r.choice(focus)
        if x < 0.85:
            return r.choice(marks)
        return r.choice([r.randint(1, 64), r.randint(1, 600), r.randint(1, 5000), r.randint(1, 100000)])
    return size

def aligns_for(t, r):
    ks = kinds(t)
    if ks & {"A", "B"}:
        al = [1, 2, 4, 8, 16, 16, 32, 64, 128, 256]
    else:
        al = [1, 2, 4, 8, 16, 16, 16, 32, 64, 128, 256, 512, 4096]
    few = [r.choice(al) for _ in range(r.choice([1, 2, 3]))]
    def align():
        x = r.random()
        if x < 0.3:
            return 16
        if x < 0.35:
            return 0
        return r.choice(few) if x < 0.85 else r.choice(al)
    return align

HUGES = ["~0", "~1", "~7", "~15", "~16", "~100", "~255", "~256", "~300", "^63", "^63+1", "^63-1", "^62", "^62+77", "^40", "^33", "^32", "^32+1", "^32+100", "^32+4096", "^33+300", "^31", "^31+5"]

def scenario(r, expr=None, nops=None, faults=0.0, huge=0.0, moves=0.05, trivial=0.05, policy=None, kind=None, empty_end=None, aligns=None):
    expr = expr or gen_expr(r, kind)
    t = parse(expr)
    size, align = sizes_for(t, r), (aligns or aligns_for)(t, r)
    pol = r.choice([0, 0, 1, 1, 2, 3, 4]) if policy is None else policy
    out = [header(expr, 0 if pol == 4 else pol, r.randint(1, 10**6))]
    if faults and r.random() < faults * 0.3:
        out[0] += " F%d" % r.choice([1, 1, 2])
    live, nid = [], 0
    ks = kinds(t)
    n = nops or r.choice([6, 12, 20, 35, 60])
    grow = r.choice([0.5, 0.6, 0.75, 0.9])
    phase = 0
    for i in range(n):
        if phase == 0:
            if r.random() < 0.06:
                phase = r.choice([3, 6, 10])      # a run of deallocations
        x = r.random()
        if "X" in ks and r.random() < 0.4:
            out.append("W %d" % r.randint(0, 2))
        if "Q" in ks and r.random() < 0.3:
            out.append("Q %d" % (r.random() < 0.7))
        if x < trivial:
            out.append(r.choice(["z 1", "z 16", "z 64", "z 512", "n 0 1", "n 16 16", "n 1000000 64", "n 4000000 512"]))
        elif x < trivial + moves:
            out.append(r.choice(["m", "m", "M"]))
        elif phase > 0 and live:
            phase -= 1
            j = r.choice([0, len(live) - 1, r.randrange(len(live))])
            out.append("d %d" % live.pop(j))
        elif r.random() < grow or not live:
            nid += 1
            if faults and r.random() < faults:
                out.append("E %s" % r.choice(["1", "1", "1", "2", "1 2", "2 3", "1 2 3"]))
            if huge and r.random() < huge:
                out.append("a %d %s %d" % (nid, r.choice(HUGES), align()))
            else:
                out.append("a %d %d %d" % (nid, size(), align()))
            live.append(nid)
        else:
            j = r.choice([0, len(live) - 1, r.randrange(len(live)), r.randrange(len(live))])
            out.append("d %d" % live.pop(j))
    if (r.random() < 0.5 if empty_end is None else empty_end):
        r.shuffle(live)
        for i in live:
            out.append("d %d" % i)
        if r.random() < 0.5:
            nid += 1
            out.append("a %d %d %d" % (nid, size(), align()))
            out.append("d %d" % nid)
    if r.random() < 0.3 and moves > 0:
        out.append(r.choice(["m", "M"]))
    out.append("D")
    return out

def make(seed, n, **kw):
    r = random.Random(seed)
    return [scenario(r, **kw) for _ in range(n)]
