from vlib.core import *

def rnd(rng, n, steps, dup=False, span=None):
    e = Ep()
    ranks = [rng.randint(-span, span) for _ in range(n)] if dup else rng.sample(range(-span, span + 1), n)
    if not dup and rng.random() < .3:
        ranks[0] = 2147483647
        if n > 1: ranks[1] = -2147483648
    for i, k in enumerate(ranks): e.do("mk", [i + 1, k, rng.randint(-99, 99)])
    where = {}
    mode = rng.choice(["mix", "asc", "desc", "grow"])
    order = sorted(range(1, n + 1), key=lambda i: ranks[i - 1], reverse=mode == "desc")
    for _ in range(steps):
        x = rng.random()
        free = [i for i in range(1, n + 1) if i not in where]
        t = rng.randrange(2) if mode == "mix" else 0
        mine = [i for i in where if where[i] == t]
        if x < .3 and free:
            i = rng.choice(free) if mode in ("mix", "grow") else next(j for j in order if j not in where)
            e.do("insert", [t, i]); where[i] = t
        elif x < (.4 if mode == "grow" else .5) and mine:
            i = rng.choice(mine); e.do("erase", [t, i]); del where[i]
        elif x < .65: e.do("find", [t, rng.choice(ranks) if rng.random() < .8 else rng.randint(-span, span)])
        elif x < .9 and mine and not dup: e.do(rng.choice(["pre", "suf"]), [t, rng.choice(mine)])
        elif x < .93 and not dup: e.do("all", [t])
        elif x < .96: e.do("val", [rng.randint(1, n)])
        elif x < .98: e.do("setval", [rng.randint(1, n), rng.randint(-9, 9)])
        elif free: i = rng.choice(free); e.do("mk", [i, ranks[i - 1], rng.randint(0, 9)])
    if not dup:
        for t in (0, 1): e.do("all", [t])
    return e

def perms(rng, n, count):
    """insert in one order, query, erase in another order, querying in between"""
    out = []
    for _ in range(count):
        e = Ep()
        for i in range(1, n + 1): e.do("mk", [i, 7 * i, i])
        p = list(range(1, n + 1)); rng.shuffle(p)
        for i in p: e.do("insert", [0, i])
        rng.shuffle(p)
        for i in p: e.do("erase", [0, i]); e.do("all", [0])
        e.do("insert", [0, p[0]]); e.do("find", [0, 7 * p[0]]); e.do("find", [0, 7 * p[-1]])
        out.append(e)
    return out

def big(rng, n, order):
    """n nodes inserted in a given order, then erased and queried all over the tree"""
    e = Ep(); ks = list(range(1, n + 1))
    for i in ks: e.do("mk", [i, 3 * i - n, i % 5])
    p = ks[:]
    if order == "random": rng.shuffle(p)
    elif order == "desc": p.reverse()
    elif order == "zigzag": p = [x for i in range((n + 1) // 2) for x in dict.fromkeys((i + 1, n - i))]
    for i in p: e.do("insert", [0, i])
    e.do("all", [0]); live = ks[:]
    for _ in range(n // 3):
        i = live.pop(rng.choice([0, len(live) - 1, rng.randrange(len(live))]))
        if rng.random() < .5: e.do("find", [0, 3 * rng.choice(live) - n])
        e.do("erase", [0, i]).do("find", [0, 3 * i - n])
        j = rng.choice(live); e.do("pre", [0, j]).do("suf", [0, j])
        if rng.random() < .2: e.do("insert", [0, i]); live.append(i)
    return e.do("all", [0])

def chain(rng, n, order):
    """a tree as deep as it has nodes: the far end is found, left, and the tree used again"""
    e = Ep(); ks = list(range(1, n + 1))
    for i in ks: e.do("mk", [i, 2 * i, i % 7])
    for i in ks if order == "asc" else ks[::-1]: e.do("insert", [0, i])
    far = ks[:3] if order == "asc" else ks[-3:]
    for i in far + [n // 2, 1, n]: e.do("find", [0, 2 * i]).do("find", [0, 2 * i + 1])
    e.do("pre", [0, n // 2]).do("find", [0, 2]).do("suf", [0, far[0]]).do("find", [0, 2 * n]).do("erase", [0, far[1]]).do("find", [0, 2 * far[1]]).do("find", [0, 2 * far[0]])
    return e

def run(ctx):
    t = ctx.tier
    em = ctx.model(MC("MC_BSTree", "MC_BSTree_%s.cfg" % t, emit=True), MC("MC_BSTree", "MC_BSTree_%s2.cfg" % t, emit=True), MC("SplayTree", "SplayTree_%s.cfg" % t))
    eps = []
    for k in em.values():
        for h in k:
            e = Ep()
            for i in range(1, 1 + (6 if not ctx.quick else 5)): e.do("mk", [i, 10 * i, i])
            for v in h["h"]: e.do(v["op"], v["a"])
            e.do("all", [0])
            eps.append(e)
    rng = ctx.rng
    r = [rnd(rng, n, 120, span=rng.choice([50, 100000, 2**31 - 3])) for n in [1, 2, 3, 4, 5, 6, 8, 10, 16, 25] * ctx.scale(6, 120)]
    r += [rnd(rng, n, 600, span=rng.choice([100000, 2**31 - 3])) for n in [100, 200] * ctx.scale(2, 30)]
    r += [rnd(rng, n, 100, dup=True, span=3) for n in [3, 6, 12] * ctx.scale(5, 100)]
    r += perms(rng, 5, ctx.scale(300, 6000)) + perms(rng, 9, ctx.scale(100, 2000))
    r += [big(rng, n, o) for n in ctx.scale((40, 150), (40, 150, 500)) for o in ("random", "asc", "desc", "zigzag") for _ in range(ctx.scale(1, 6))] + [big(rng, ctx.scale(400, 1000), o) for o in ("asc", "random")]
    r += [chain(rng, n, o) for n in ctx.scale((700, 1500), (700, 1500, 4000)) for o in ("asc", "desc")]
    ctx.conform(Suite("bst", "bst.cpp", "Trace_BSTree", eps + r))
