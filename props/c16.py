import itertools
from vlib.core import *
LIM = 10**9
mul = lambda x, y: (x[0], y[1], [sum(x[2][i * x[1] + k] * y[2][k * y[1] + j] for k in range(x[1])) for i in range(x[0]) for j in range(y[1])])
amul = lambda x, y: mul((x[0], x[1], [abs(v) for v in x[2]]), (y[0], y[1], [abs(v) for v in y[2]]))
small = lambda z: all(abs(v) <= LIM for v in z[2])
ident = lambda n: (n, n, [int(i == j) for i in range(n) for j in range(n)])

def rmat(rng, n=None, m=None):
    n = n or rng.choice([1, 1, 2, 2, 3, 4]); m = m or rng.choice([n, n, 1, 2, 3, 5])
    hi = rng.choice([1, 3, 9, 60])
    return (n, m, [0 if rng.random() < .15 else rng.randint(-hi, hi) for _ in range(n * m)])

def rnd(rng, steps, text):
    e = Ep(); o = {}; dim = rng.choice([None, 1, 2, 3])
    for _ in range(steps):
        k = rng.random(); free = [i for i in range(1, 6) if i not in o]
        if not o or (free and k < .2):
            n = rng.choice(free); q = rng.random()
            if o and q < .25: s = rng.choice(sorted(o)); e.do("copy", [n, s]); o[n] = (o[s][0], o[s][1], list(o[s][2]))
            elif q < .35:
                u, v = rng.choice([(1, 1), (2, 2), (3, 1), (2, 4), (dim or 3, dim or 3)]); e.do("zeros", [n, u, v]); o[n] = (u, v, [0] * (u * v))
            elif q < .42: u = rng.randint(1, 4); e.do("ident", [n, u]); o[n] = ident(u)
            else:
                m = rmat(rng, dim, dim if rng.random() < .7 else None); e.do("new", [n], [m[0], m[1]] + m[2]); o[n] = m
            continue
        x = rng.choice(sorted(o)); y = rng.choice(sorted(o)); X, Y = o[x], o[y]
        if not free and k < .32: e.do("del", [x]); del o[x]
        elif k < .38: e.do("asg", [x, y]); o[x] = (Y[0], Y[1], list(Y[2]))
        elif k < .40:                       # released storage can be assigned again
            e.do("clear", [x])
            if x != y and rng.random() < .8: e.do("asg", [x, y]); o[x] = (Y[0], Y[1], list(Y[2]))
            else: e.do("del", [x]); del o[x]
        elif k < .48: i, j, v = rng.randint(1, X[0]), rng.randint(1, X[1]), rng.randint(-9, 9); e.do("set", [x, i, j, v]); X[2][(i - 1) * X[1] + j - 1] = v
        elif k < .82:
            op = rng.choice(["add", "sub", "mul", "mul"]); comp = rng.random() < .5 or not free
            if op == "mul":
                if X[1] != Y[0]: e.do(op + ("c" if comp else ""), [x, y] + ([] if comp else [free[0]]), (), (), True); continue
                if not small(amul(X, Y)): continue
                z = mul(X, Y)
            else:
                if X[:2] != Y[:2]: e.do(op + ("c" if comp else ""), [x, y] + ([] if comp else [free[0]]), (), (), True); continue
                z = (X[0], X[1], [u + v if op == "add" else u - v for u, v in zip(X[2], Y[2])])
                if not small(z): continue
            e.do(op + ("c" if comp else ""), [x, y] + ([] if comp else [free[0]])); o[x if comp else free[0]] = z
        elif k < .90 and free:
            p = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11])
            if X[0] != X[1]:
                if p > 1: e.do("pow", [x, p, free[0]], (), (), True)
                continue
            z, ok = ident(X[0]), True
            A = (X[0], X[1], [abs(v) for v in X[2]]); t = ident(X[0])
            for _ in range(max(p, 1)):      # squares stay below the bound as well
                t = mul(t, A); z = mul(z, X); ok = ok and small(t)
            big = mul(t, t) if p > 1 else t
            if p == 0: z = ident(X[0])
            if ok and (p < 2 or small(mul(t, ident(X[0])))): e.do("pow", [x, p, free[0]]); o[free[0]] = z
        elif k < .95: e.do("cmp", [x, y])
        elif text: e.do("str", [x, rng.randint(0, 1)])
        else: e.do("get", [x])
    for x in sorted(o): e.do("get", [x])
    return e

def big(rng, n):
    """larger shapes, and high powers of matrices whose powers stay small"""
    e = Ep(); m = rng.choice([n, n + 1, 2 * n - 3]); R = lambda u, v, w: [u, v] + [rng.randint(-w, w) for _ in range(u * v)]
    e.do("new", [1], R(n, m, 50)).do("new", [2], R(m, n, 50)).do("mul", [1, 2, 3]).do("mul", [2, 1, 4]).do("copy", [5, 1]).do("addc", [5, 1]).do("subc", [1, 5]).do("cmp", [1, 5]).do("add", [1, 5, 6]).do("sub", [5, 1, 7])
    e.do("asg", [2, 3]).do("set", [2, n, n, 5]).do("get", [3]).do("mulc", [6, 2] if m == n else [2, 3]).do("asg", [4, 4]).do("clear", [4]).do("asg", [4, 1]).do("get", [4]).do("mul", [1, 1, 8], may=True) if m != n else None
    e.do("del", [6]).do("del", [7])
    p = list(range(n)); rng.shuffle(p)
    e.do("new", [6], [n, n] + [int(p[i] == j) * rng.choice([1, 1, -1]) for i in range(n) for j in range(n)])
    for k in (rng.randint(9, 40), rng.choice([15, 16, 17, 31, 32, 33, 63, 64])): e.do("pow", [6, k, 7]).do("del", [7])
    for k in (2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**31, 2**32), rng.randrange(2**16, 2**31), 65535, 65536): e.do("powb", [6, 0, 7], [int(c) for c in bin(k)[2:]]).do("del", [7])
    t = rng.choice([2, 3, 4]); e.do("new", [7], [t, t] + [1 if j == i or (j == i + 1) else 0 for i in range(t) for j in range(t)])
    for k in (rng.randint(9, 60), 100, 127, 128): e.do("pow", [7, k, 9]).do("del", [9])
    return e

def red(rng, n, wide=False):
    e = Ep()
    for _ in range(n):
        if wide:
            r, c = rng.choice([(5, 5), (5, 6), (6, 4), (4, 7), (6, 6), (2, 9), (9, 2), (7, 3)])
            m = [0 if rng.random() < .4 else rng.choice([1, -1, 1, 2]) for _ in range(r * c)]
            if rng.random() < .4: m[:c] = [0] * c
            if rng.random() < .4: m[::c] = [0] * r
            e.do("reduce", [], [r, c] + m); continue
        r, c = rng.choice([(1, 1), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 2), (4, 4), (4, 3), (3, 1)])
        hi = 2 if r * c > 9 else 4
        m = [0 if rng.random() < .3 else rng.randint(-hi, hi) for _ in range(r * c)]
        if rng.random() < .3 and r > 1:     # dependent rows
            i, j, f = rng.randrange(r), rng.randrange(r), rng.choice([1, -1, 2])
            m[i * c:(i + 1) * c] = [f * v for v in m[j * c:(j + 1) * c]]
        e.do("reduce", [], [r, c] + m)
    return e

def det(m):
    return m[0][0] if len(m) == 1 else sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if m[0][j])

def dyadic(m, r, c):
    """every minor is 0 or a power of two, so elimination in any order is exact in floating point"""
    R = [m[i * c:(i + 1) * c] for i in range(r)]; ok = lambda d: abs(d) & (abs(d) - 1) == 0
    return all(ok(det([[R[i][j] for j in cs] for i in rs])) for k in range(1, min(r, c) + 1) for rs in itertools.combinations(range(r), k) for cs in itertools.combinations(range(c), k))

def redd(rng, n):
    """reduce on doubles: dyadic entries of any magnitude"""
    e = Ep()
    while len(e) < n:
        r, c = rng.choice([(1, 1), (1, 2), (1, 4), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (3, 1), (4, 4)])
        m = [0 if rng.random() < .35 else rng.choice([1, -1, 2, -2, 4, 8, 1]) for _ in range(r * c)]
        if dyadic(m, r, c): e.do("reduce", [rng.choice([0, 0, 1, 5, 10, 14, 20, 24, 30, 34, 40, -3, -20, -33, 60, -60, 300, -300])], [r, c] + m)
    return e

def quart(rng, n):
    """fractional entries, pairs that differ little or not at all"""
    e = Ep()
    for _ in range(n):
        u, v = rng.choice([(1, 1), (2, 2), (2, 3), (3, 3), (1, 5), (4, 4)]); w = rng.choice([3, 50, 4000])
        x = [rng.randint(-w, w) for _ in range(u * v)]; y = list(x)
        for _ in range(rng.choice([0, 1, 1, 2, 9])): y[rng.randrange(u * v)] += rng.choice([1, -1, 2, 3, 4])
        e.do("quart", [0], [u, v] + x + y)
    return e

def inner(rng, k):
    """products along a long inner dimension"""
    e = Ep(); R = lambda u, v: [u, v] + [rng.randint(-9, 9) for _ in range(u * v)]
    u, v = rng.choice([(1, 1), (2, 2), (2, 3), (3, 1)])
    e.do("new", [1], R(u, k)).do("new", [2], R(k, v)).do("mul", [1, 2, 3]).do("mul", [2, 1, 4]) if k < 140 and u == v else e.do("new", [1], R(u, k)).do("new", [2], R(k, v)).do("mul", [1, 2, 3])
    e.do("copy", [5, 1]).do("cmp", [1, 5]).do("set", [5, u, k, 17]).do("cmp", [1, 5]).do("add", [1, 5, 6]).do("mulc", [1, 2]).do("asg", [2, 5]).do("get", [2])
    return e

def run(ctx):
    cfgs = ["MC_Matrix_quick.cfg", "MC_Matrix_quick23.cfg"] if ctx.quick else ["MC_Matrix_%s.cfg" % c for c in ("thorough", "thorough33", "thorough32", "quick23")]
    em = ctx.model(*[MC("MC_Matrix", c, emit=True) for c in cfgs])
    rng = ctx.rng; eps = []; fr = []; e = Ep()
    pairs = [t for c in cfgs for t in em[c]]
    for t in pairs if len(pairs) < 8000 else rng.sample(pairs, 8000):
        x, y = t["x"], t["y"]; sh = lambda m: m[:2] + [v * rng.choice([1, -1, 1]) for v in m[2:]]
        x, y = sh(x), sh(y)
        e.do("new", [1], x).do("new", [2], y)
        if x[0] == x[1]: e.do("mul", [1, 2, 3]).do("pow", [1, rng.randint(0, 6), 4]).do("mulc", [1, rng.choice([1, 2])]).do("del", [3]).do("del", [4])
        e.do("add", [1, 2, 3]).do("subc", [1, 2]).do("cmp", [1, 2]).do("del", [1]).do("del", [2]).do("del", [3])
        fr.append(x)
        if len(e) > 120: eps.append(e); e = Ep()
    if e: eps.append(e)
    rd = []
    for i in range(0, len(fr), 100):
        e = Ep()
        for x in fr[i:i + 100]: e.do("reduce", [], x)
        rd.append(e)
    rd += [red(rng, 20) for _ in range(ctx.scale(25, 400))]
    eps += [rnd(rng, rng.choice([20, 50]), True) for _ in range(ctx.scale(300, 4000))]
    eps += [big(rng, n) for n in (6, 8, 9, 12, 16, 17) for _ in range(ctx.scale(1, 12))]
    eps += [inner(rng, k) for k in (31, 33, 63, 64, 65, 127, 129, 130, 257, 300, 1030) for _ in range(ctx.scale(1, 8))]
    rd += [red(rng, 6, True) for _ in range(ctx.scale(10, 100))]
    dbl = [quart(rng, 60) for _ in range(ctx.scale(10, 100))] + [inner(rng, k) for k in (65, 130, 300)] + [redd(rng, 40) for _ in range(ctx.scale(15, 200))] + [big(rng, n) for n in (6, 10, 17)] + [rnd(rng, rng.choice([20, 50]), False) for _ in range(ctx.scale(150, 2000))]
    ctx.conform(Suite("int", "matrix.cpp", "Trace_MatrixADT", eps, defs=("ELEM=int",)),
                Suite("fraction", "matrix.cpp", "Trace_MatrixADT", rd, defs=("ELEM=int", "FRACTION"), optional=True),
                Suite("double", "matrix.cpp", "Trace_MatrixADT", dbl, defs=("ELEM=double",)))
