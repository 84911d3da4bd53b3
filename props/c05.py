from vlib.core import *

def rnd(rng, n, steps, factor):
    """random update/query history; magnitudes are tracked so that nothing leaves 32 bits"""
    e = Ep()
    v = [rng.randint(-9, 9) for _ in range(n)]
    e.do("new", [0], v); e.do("size", [0])
    lim = 1000000000 // max(1, n)
    arrs = {0: v[:]}
    for _ in range(steps):
        s = rng.choice(list(arrs))
        v = arrs[s]
        l = rng.randrange(n); r = rng.randrange(n)
        if rng.random() < .25: l, r = rng.choice([(0, n-1), (0, n//2), (n//2, n-1), (n-1, n-1), (0, 0)])
        if l > r: l, r = r, l
        x = rng.random()
        if x < .03:
            d = 1 - s
            e.do("copy", [d, s]); arrs[d] = v[:]
        elif x < .35:
            k = rng.choice([1, -1, 7, rng.randint(-50, 50)])
            if all(abs(y + k) < lim for y in v[l:r+1]):
                e.do("add", [s, l, r, k])
                v[l:r+1] = [y + k for y in v[l:r+1]]
        elif x < .6:
            k = rng.choice(factor)
            if all(abs(y * k) < lim for y in v[l:r+1]):
                e.do("mul", [s, l, r, k])
                v[l:r+1] = [y * k for y in v[l:r+1]]
        elif x < .97 or n > 24:
            e.do(rng.choice(["max", "min", "sum"]), [s, l, r])
        else:
            e.do("qall", [s, rng.randint(1, 3)])
    return e

def focus(rng, n, steps):
    """a large array, all calls inside one small window: deep nodes with pending updates of both kinds"""
    e = Ep(); v = [rng.randint(-9, 9) for _ in range(n)]; e.do("new", [0], v); lim = 100000
    w = rng.choice([2, 3, 4, 6, 10, 20]); c = rng.choice([0, n - w - 1, rng.randrange(n - w)])
    for _ in range(steps):
        l = c + rng.randrange(w); r = c + rng.randrange(w); x = rng.random()
        if l > r: l, r = r, l
        if rng.random() < .1: l, r = rng.choice([(0, n - 1), (c, c + w), (0, c + w // 2), (c + w // 2, n - 1)])
        if x < .25:
            k = rng.randint(-50, 50)
            if all(abs(y + k) < lim for y in v[l:r+1]): e.do("add", [0, l, r, k]); v[l:r+1] = [y + k for y in v[l:r+1]]
        elif x < .5:
            k = rng.choice([-1, 0, 2, 3, -2])
            if all(abs(y * k) < lim for y in v[l:r+1]): e.do("mul", [0, l, r, k]); v[l:r+1] = [y * k for y in v[l:r+1]]
        else: e.do(rng.choice(["max", "min", "sum"]), [0, l, r])
    return e

def vast(rng, n):
    """arrays beyond 2^15 and 2^16 elements: updates of the whole array, of halves and of odd intervals, each observed"""
    e = Ep().do("new", [0], [rng.randint(-9, 9) for _ in range(n)]).do("sum", [0, 0, n - 1])
    for l, r in [(0, n - 1), (0, n // 2), (n // 2, n - 1), (1, n - 2), (n - 1, n - 1), tuple(sorted(rng.sample(range(n), 2)))]:
        e.do("add", [0, l, r, rng.randint(1, 9)]).do("sum", [0, 0, n - 1]).do("sum", [0, l, r]).do("mul", [0, l, r, rng.choice([-1, 2])]).do(rng.choice(["max", "min"]), [0, 0, n - 1]).do("sum", [0, l, n - 1]).do("sum", [0, max(0, l - 3), r])
    return e

def run(ctx):
    t = "quick" if ctx.quick else "thorough"
    em = ctx.model(MC("MC_SegTree", "MC_SegTree_%s.cfg" % t, emit=True), MC("MC_SegTree", "MC_SegTree_%s3.cfg" % t, emit=True),
                   MC("LazySegTree", "LazySegTree_%s.cfg" % t))
    eps = []
    rng = ctx.rng
    orders = [[1, 2, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1], [1, 3, 2], [2, 1, 3]]
    for k in em.values():
        for i, h in enumerate(k):
            e = Ep()
            for ev in h["h"]:
                e.do(ev["op"], ev["a"], ev["b"])
            for q in orders[i % 6]:
                e.do("qall", [0, q])
            eps.append(e)
    r = [rnd(rng, n, 60, [-1, 0, 2, -2, 3]) for n in list(range(1, 20)) * ctx.scale(3, 25)]
    r += [rnd(rng, n, 150, [-1, 0, 2, 1, -3]) for n in [31, 32, 33, 63, 64, 65, 100, 127, 128, 129] * ctx.scale(1, 10)]
    r += [rnd(rng, n, 60, [-1, 0, 2]) for n in [255, 256, 257, 1000, 1025][:ctx.scale(4, 5)] * ctx.scale(1, 5)]
    r += [focus(rng, n, 60) for n in [300, 700, 1100, 2100, 4200] for _ in range(ctx.scale(2, 10))]
    huge = [vast(rng, n) for n in [40000, 70000][:ctx.scale(1, 2)] * ctx.scale(1, 3)]
    ctx.conform(Suite("segtree-int", "segtree.cpp", "Trace_SegTree", eps + r),
                Suite("segtree-huge", "segtree.cpp", "Trace_SegTree", huge, defs=["VT=ll"]),
                Suite("segtree-wide", "segtree.cpp", "Trace_SegTree", r[10:ctx.scale(70, 400)], defs=["VT=ll", "UNIT=1000000007LL"]),
                Suite("segtree-fine", "segtree.cpp", "Trace_SegTree", r[5:ctx.scale(65, 400)], defs=["VT=double", "UNIT=(1.0/4096)"]),
                Suite("segtree-double", "segtree.cpp", "Trace_SegTree", r[:ctx.scale(40, 400)] + eps[:ctx.scale(300, 3000)], defs=["VT=double"]),
                Suite("segtree-ll", "segtree.cpp", "Trace_SegTree", r[20:ctx.scale(60, 400)] + eps[-ctx.scale(300, 3000):], defs=["VT=ll"]))
