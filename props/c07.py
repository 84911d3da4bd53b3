from vlib.core import *

def build(e, par, rng=None):
    for i in range(1, len(par) + 1): e.do("mk", [i, i % 7 if rng is None else rng.randint(-9, 9)])
    for i, p in enumerate(par, 1):
        if p == 0: e.do("root", [i])
        else: e.do("add", [i, p])

def full(par):
    e = Ep().do("getroot"); build(e, par)
    e.do("pairs"); e.do("ancs"); e.do("getroot")
    for i in range(1, len(par) + 1): e.do("info", [i]); e.do("jumps", [i]); e.do("sons", [i])
    return e

def shape(rng, n, kind):
    par = [0]
    for i in range(2, n + 1):
        if kind == "chain": p = i - 1
        elif kind == "two": p = 1 if i == 2 or i == n // 2 + 2 else i - 1
        elif kind == "fork": p = max(1, n // 3) if i == 2 * n // 3 else i - 1
        elif kind == "random": p = rng.randint(1, i - 1)
        elif kind == "deep": p = rng.randint(max(1, i - 3), i - 1)
        elif kind == "star": p = 1 if rng.random() < .8 else rng.randint(1, i - 1)
        else: p = i // 2
        par.append(p)
    return par

def rnd(rng, n, kind, q):
    par = shape(rng, n, kind)
    lab = list(range(1, n + 1)); rng.shuffle(lab)
    dep = [0] * (n + 1)
    e = Ep().do("getroot")
    same = rng.random() < .3; late = rng.random() < .3             # equal ids; the root is declared last
    for i in lab: e.do("mk", [i, rng.randint(-9, 9)] + ([rng.randint(-1, 2)] if same else []))
    e.do("info", [rng.choice(lab)])
    for i, p in enumerate(par, 1):
        if p == 0: e.do("top" if late else "root", [lab[0]])
        else:
            e.do("add", [lab[i - 1], lab[p - 1]]); dep[i] = dep[p] + 1
        if rng.random() < .05:       # queries while the tree is still growing
            j = rng.randint(1, i); e.do("lca", [lab[i - 1], lab[j - 1]])
    if late: e.do("getroot").do("root", [lab[0]]).do("getroot")
    near = lambda: rng.choice([rng.randint(1, n), n, max(1, n - 1), n // 2 + 1, 1])
    for _ in range(q):
        x, y = near(), near()
        k = rng.random()
        if k < .4: e.do("lca", [lab[x - 1], lab[y - 1]])
        elif k < .7: e.do("dist", [lab[x - 1], lab[y - 1]])
        elif k < .85: e.do("anc", [lab[x - 1], rng.choice([0, dep[x], rng.randint(0, dep[x])])])
        elif k < .9: e.do("jumps", [lab[x - 1]])
        elif k < .95: e.do("info", [lab[x - 1]])
        else: e.do("sons", [lab[x - 1]])
    return e

def arms(rng, n, q):
    """a stem with several long arms below some of its nodes; n: length of the whole"""
    e = Ep().do("mk", [1, 3]).do("root", [1])
    dep = [None, 0]; top = 1; ends = [1]
    for part in range(rng.randint(2, 5)):
        cnt = max(1, rng.choice([n // 2, n // 3, n // 5, n - 1])); p = rng.choice([ends[-1], ends[-1], rng.randint(1, top), 1])
        e.do("chain", [top + 1, cnt, p])
        for i in range(cnt): dep.append(dep[p] + 1 + i)
        top += cnt; ends += [top - cnt + 1, top]
    pick = lambda: rng.choice([rng.choice(ends), rng.choice(ends), rng.randint(1, top)])
    for _ in range(q):
        x, y = pick(), pick(); k = rng.random()
        if k < .4: e.do("lca", [x, y])
        elif k < .7: e.do("dist", [x, y])
        elif k < .9: e.do("anc", [x, rng.choice([dep[x], rng.randint(0, dep[x])])])
        elif k < .95: e.do("jumps", [x])
        else: e.do("info", [x])
    return e

def run(ctx):
    em = ctx.model(MC("Lifting", "Lifting_%s.cfg" % ctx.tier, emit=True), MC("Lifting", "Lifting_%s2.cfg" % ctx.tier, emit=True))
    eps = [full(t["par"]) for k in em.values() for t in k]
    rng = ctx.rng
    kinds = ["chain", "two", "fork", "random", "deep", "star", "heap"]
    r = [rnd(rng, rng.randint(1, 12), rng.choice(kinds), 40) for _ in range(ctx.scale(100, 3000))]
    r += [rnd(rng, n, k, 40) for n in (13, 20, 31, 40) for k in kinds for _ in range(ctx.scale(1, 12))]
    r += [rnd(rng, n, k, ctx.scale(25, 80)) for n in ctx.scale((65, 130), (65, 130, 260, 300)) for k in kinds]
    r += [rnd(rng, n, k, 20) for n in ctx.scale((300, 530), (600, 1100, 2100)) for k in ("chain", "two", "fork", "deep")]
    r += [arms(rng, n, ctx.scale(16, 60)) for n in (1100, 2100, 4200, 9000) for _ in range(ctx.scale(1, 6))]
    for n, q in ((20000, 8), (34000, 6), (66000, 6)):       # deeper and wider than a 16-bit counter
        for i in range(ctx.scale(1, 4)):
            e = Ep().do("mk", [1, 0]).do("root", [1]).do("chain", [2, n, 1]).do("chain", [n + 2, n, rng.choice([1, 2, 5])]); top = 2 * n + 1
            e.do("dist", [n + 1, top]).do("lca", [top, n + 1]).do("anc", [top, n - 10 * i]).do("info", [top]).do("lca", [rng.randint(2, n), n + 1]).do("dist", [n // 2, top]); r.append(e)
    ctx.conform(Suite("tree", "tree.cpp", "Trace_RootedTree", eps + r))
