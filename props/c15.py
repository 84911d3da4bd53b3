from fractions import Fraction as Fr
from vlib.core import *
M = 2**31 - 1

def fits(c, x, y):
    a, b, p, q = x.numerator, x.denominator, y.numerator, y.denominator
    ok = lambda *v: all(abs(t) <= M for t in v)
    if c in (1, 2, 5): return ok(a * q, b * p, b * q) and abs(a * q) + abs(b * p) <= M
    if c == 3: return ok(a * p, b * q)
    return ok(a * q, b * p)
def ev(c, x, y): return x + y if c == 1 else x - y if c == 2 else x * y if c == 3 else x / y

def num(rng, big):
    k = rng.random()
    if k < .1: return 0
    if k < .6: v = rng.randint(1, 12)
    elif k < .9: v = rng.randint(1, 400)
    else: v = rng.choice([rng.randint(1, 40000), M, M - 1, 46340, 65536, 2**30]) if big else rng.randint(1, 4000)
    return v if rng.random() < .55 else -v

def rnd(rng, steps):
    e = Ep(); o = {}
    for _ in range(steps):
        k = rng.random(); free = [i for i in range(1, 6) if i not in o]
        if not o or (free and k < .18):
            n = rng.choice(free); q = rng.random(); x = num(rng, True); y = num(rng, True)
            if q < .1: e.do("zero", [n]); o[n] = Fr(0)
            elif q < .3: e.do("newi", [n, x]); o[n] = Fr(x)
            else:
                e.do("new", [n, x, y], (), (), y == 0)
                if y: o[n] = Fr(x, y)
            continue
        x = rng.choice(sorted(o)); y = rng.choice(sorted(o)); c = rng.randint(1, 4); v = num(rng, False)
        if not free and k < .35: e.do("del", [x]); del o[x]; continue
        if k < .4: e.do("asg", [x, y]); o[x] = o[y]
        elif k < .8:
            kind = rng.choice(["bin", "bini", "ibin", "cmpd", "cmpi"])
            if kind in ("bin", "bini", "ibin") and not free: kind = "cmpd"
            l, r = {"bin": (o[x], o[y]), "cmpd": (o[x], o[y]), "bini": (o[x], Fr(v)), "cmpi": (o[x], Fr(v)), "ibin": (Fr(v), o[x])}[kind]
            if c == 4 and r == 0:
                e.do(kind, [x, y if kind in ("bin", "cmpd") else v] + ([free[0]] if "bin" in kind else []), [c], (), True); continue
            if not fits(c, l, r): continue
            w = ev(c, l, r)
            e.do(kind, [x, y if kind in ("bin", "cmpd") else v] + ([free[0]] if "bin" in kind else []), [c])
            o[free[0] if "bin" in kind else x] = w
        elif k < .92:
            if rng.random() < .5:
                if fits(5, o[x], o[y]): e.do("cmp", [x, y])
            elif fits(5, o[x], Fr(v)): e.do("cmpn", [x, v])
        else: e.do("see", [x])
    for x in sorted(o): e.do("see", [x])
    return e

def close(rng, n):
    """fractions that differ by as little as their denominators allow"""
    e = Ep()
    for _ in range(n):
        k = rng.choice([3, 100, 4000, 30000, 32760, 46339]); q = rng.randint(max(2, k // 2), k); p = rng.randint(1, q)
        x = Fr(p, q); t = rng.random()
        if t < .5:                          # a neighbour in the Farey sequence of the denominators
            if x.denominator == 1: x = Fr(p, q + 1 if p == q else q)
            if x.denominator == 1: continue
            b = pow(x.numerator, -1, x.denominator); y = Fr((x.numerator * b - 1) // x.denominator, b)
        elif t < .8: y = Fr(x.numerator + 1, x.denominator + 1)
        else: y = x
        s = rng.choice([1, -1]); x, y = s * x, s * y
        if rng.random() < .3: x, y = 1 / x, 1 / y if y else y
        if not fits(5, x, y): continue
        e.do("new", [1, x.numerator, x.denominator]).do("new", [2, -y.numerator, -y.denominator]).do("cmp", [1, 2]).do("cmp", [2, 1])
        for c in (1, 2, 3, 4):
            if (c < 4 or y) and fits(c, x, y): e.do("bin", [1, 2, 3], [c]).do("del", [3])
        v = x.numerator // x.denominator + rng.choice([0, 1])
        if fits(5, x, Fr(v)): e.do("cmpn", [1, v])
        e.do("del", [1]).do("del", [2])
    return e

def run(ctx):
    cfg = "MC_Rational_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_Rational", cfg, emit=True))
    rng = ctx.rng; eps = []; e = Ep()
    ps = em[cfg]
    for t in (rng.sample(ps, 2500) if ctx.quick and len(ps) > 2500 else ps):
        (n, d), (p, q) = t["p"], t["q"]
        e.do("new", [1, n, d]).do("new", [2, p, q])
        for c in (1, 2, 3, 4):
            z = c == 4 and p == 0
            e.do("bin", [1, 2, 2 + c], [c], (), z)
            if not z: e.do("del", [2 + c])
        e.do("ibin", [2, n, 3], [rng.choice([1, 2, 3] + ([4] if p else []))]).do("cmp", [1, 2])
        e.do("cmpd", [1, 2], [rng.choice([1, 2, 3] + ([4] if p else []))]).do("see", [1]).do("del", [1]).do("del", [2]).do("del", [3])
        if len(e) > 150: eps.append(e); e = Ep()
    if e: eps.append(e)
    eps += [rnd(rng, rng.choice([20, 50, 100])) for _ in range(ctx.scale(500, 8000))]
    eps += [close(rng, 40) for _ in range(ctx.scale(25, 300))]
    ctx.conform(Suite("fraction", "fraction.cpp", "Trace_Rational", eps))
