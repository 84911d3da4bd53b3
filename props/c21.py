import math
from fractions import Fraction
from vlib.core import *
from props.c10 import batch
U, LIM = 64, 1000000

class W:
    """keeps the exact coordinates so that generated calls stay inside the representable domain"""
    def __init__(s, rng): s.rng, s.e, s.p = rng, Ep(), {}
    def fit(s, v): return all(abs(x) <= LIM for x in v)
    def step(s):
        rng, p, e = s.rng, s.p, s.e
        k = rng.randint(1, 5); op = rng.choice("new new zero copy asg set add sub adda suba mul rmul div mula diva dot cross cmp len norm str get".split())
        if op == "new" or not p:
            n = rng.choice([1, 2, 2, 2, 3, 4, 5]); w = rng.choice([2, 10, 1000, 60000]); q = rng.choice([1, 16, 64])
            v = [rng.randint(-w, w) // q * q for _ in range(n)]; e.do("new", [k], v); p[k] = v; s.get(k); return
        if op == "zero": n = rng.randint(1, 5); e.do("zero", [k, n]); p[k] = [0] * n; s.get(k); return
        i = rng.choice(sorted(p)); same = [j for j in sorted(p) if len(p[j]) == len(p[i])]; j = rng.choice(same)
        if op == "copy": e.do("copy", [k, i]); p[k] = list(p[i]); s.get(k)
        elif op == "asg": e.do("asg", [j, i]); p[j] = list(p[i]); s.get(j)
        elif op == "set": c = rng.randrange(len(p[i])); x = rng.choice([0, 64, rng.randint(-5000, 5000)]); e.do("set", [i, c, x]); p[i] = list(p[i]); p[i][c] = x; s.get(i)
        elif op in ("add", "sub", "adda", "suba"):
            v = [x + y if op[0] == "a" else x - y for x, y in zip(p[i], p[j])]
            if not s.fit(v): return
            if op[-1] == "a": e.do(op, [i, j]); p[i] = v; s.get(i); s.get(j)
            else: e.do(op, [k, i, j]); p[k] = v; s.get(k); s.get(i); s.get(j)
        elif op in ("mul", "rmul", "div", "mula", "diva"):
            if op in ("mula", "diva") and rng.random() < .6:                                                         # make a coordinate a possible factor
                c = rng.randrange(len(p[i])); x = rng.choice([128, -64, 32, 256, -128, 16, 64, 512]); e.do("set", [i, c, x]); p[i] = list(p[i]); p[i][c] = x
            n, d = rng.choice([(Fraction(x, U).numerator, Fraction(x, U).denominator) for x in p[i] if abs(x) <= 1024] if op == "mula" and rng.random() < .7 and any(abs(x) <= 1024 for x in p[i]) else [(2, 1), (-1, 1), (3, 1), (0, 1), (1, 2), (-3, 2), (1, 4), (5, 1), (1, 1), (-7, 4)])
            if op in ("div", "diva"):
                d, n = rng.choice([(Fraction(x, U).numerator, Fraction(x, U).denominator) for x in p[i] if x and abs(x) <= 1024 and abs(x) & (abs(x) - 1) == 0] if op == "diva" and rng.random() < .7 and any(x and abs(x) <= 1024 and abs(x) & (abs(x) - 1) == 0 for x in p[i]) else [(2, 1), (-1, 1), (1, 2), (4, 1), (-2, 1), (1, 4), (1, 1), (8, 1), (16, 1)])     # divisor d/n
                if any(abs(x * n) > 64 * LIM or x * n % d for x in p[i]): return
                v = [x * n // abs(d) * (1 if d > 0 else -1) for x in p[i]]
                a = [d, n]
            else:
                if any(abs(x * n) > 64 * LIM or x * n % d for x in p[i]): return
                v = [x * n // d for x in p[i]]; a = [n, d]
            if not s.fit(v): return
            if op in ("mula", "diva"):
                own = [c for c, x in enumerate(p[i]) if x * a[1] == U * a[0]] if rng.random() < .7 else []          # the factor is a coordinate of the point
                e.do(op, [i] + a, [], own and [rng.choice(own)]); p[i] = v; s.get(i)
            else: e.do(op, [k, i] + a); p[k] = v; s.get(k); s.get(i)
        elif op in ("dot", "cmp"): e.do(op, [i, j])
        elif op == "cross":
            if len(p[i]) == 2: e.do(op, [i, j])
        elif op == "norm":
            if rng.random() < .4:                                                                                  # about as long as a power of two; the hint makes it a vector of length about one
                v = [rng.choice([0, rng.randint(-200000, 200000)]) for _ in p[i]]; c = rng.randrange(len(v)); v[c] = 0
                v[c] = rng.choice([1, -1]) * max(0, math.isqrt(2**38 - sum(x * x for x in v)) + rng.randint(-3, 3)); e.do("new", [i], v); p[i] = v; e.do(op, [i], [], [-13]); return
            if any(p[i]): e.do(op, [i], [], rng.choice([[], [rng.randint(-300, 300)]])); s.get(i)
        elif op == "str":
            if all(x * 4 % U == 0 and abs(x) < 1000 * U for x in p[i]): e.do(op, [i])
        else: e.do(op, [i])
    def get(s, k):
        if k in s.p and s.rng.random() < .6: s.e.do("get", [k])

def run(ctx):
    rng = ctx.rng; cfg = "MC_Geom_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_Geom", cfg, emit=True))[cfg]
    ops = []; how = lambda: [rng.randint(0, 2), rng.choice([0, 0, 0, rng.randint(-60, 60), -10, -20, -30]), rng.choice([0, 0, rng.randint(-60, 60), -12, -25])]
    how1 = lambda: [rng.randint(0, 1)] + rng.choice([[], [rng.randint(-60, 60), 0]])
    rng.shuffle(em); n = {"seg": ctx.scale(1200, 20000), "int": ctx.scale(700, 15000)}
    def seg(P, A, v):
        ops.append(("dseg", P + A + v, [], how()))
        if any(v): ops.append(("dline", P + A + v, [], how()))
    def inter(A, v, B, w):
        if v[0] * w[1] != v[1] * w[0]: ops.append(("inter", A + v + B + w, [], how()))
    for t in em:
        if n[t["kind"]] <= 0: continue
        n[t["kind"]] -= 1; q = rng.choice([64, 64, 1, 640, 200])
        m = lambda x: [c * q for c in x]
        if t["kind"] == "seg": seg(m(t["P"]), m(t["A"]), m(t["v"]))
        else: inter(m(t["A"]), m(t["v"]), m(t["B"]), m(t["w"]))
    for _ in range(ctx.scale(1500, 25000)):
        w = rng.choice([64, 1000, 6400, 60000]); r2 = lambda: [rng.choice([0, rng.randint(-w, w)]), rng.randint(-w, w)]
        A, v, P = r2(), r2(), r2(); k = rng.random()
        if k < .25: t = rng.randint(-2, 3); P = [A[i] + v[i] * t + rng.choice([0, 0, 1, -1]) * (v[1 - i] if i else -v[1]) for i in (0, 1)]       # near an end, or beyond
        elif k < .35: v = [0, 0]
        seg(P, A, v); ops.append(("llen", A + v, [], how()))
        inter(A, r2(), r2(), r2()); B = r2(); inter(A, [0, rng.randint(1, w)], B, [rng.randint(1, w), 0]); inter(A, [rng.randint(1, w), 0], B, r2())
        O = rng.choice([[0, 0], r2()]); r = rng.choice([0, 64, 1, rng.randint(0, 20000)])
        ops.append((rng.choice(["area", "peri"]), O + [r, 0], [], how1())); ops.append(("cpt", O + [r, rng.randint(-30, 50)], [], how1()))
        ops.append(("cpt", O + [r, rng.choice([rng.randint(-300, 300), rng.randint(-9999, 9999), rng.randint(-100000, 100000)])], [], how1()))
        d = rng.randint(1, 5); ops.append(("scale", [rng.randint(0, 4), rng.choice([1, -1]) * rng.choice([1, 3, 5, 7, 10, 64, 333, rng.randint(1, 5000)]), rng.choice([1, 3, 7, 64, rng.randint(1, 5000)])], [rng.choice([0, rng.randint(-w, w)]) for _ in range(d)]))
        ops.append(("near", [rng.choice([rng.randint(-500, 500), rng.randint(-640000, 640000), rng.randint(-64000000, 64000000)]) for _ in range(d)], [rng.choice([0, 0, 50, -50, 95, 97, -95, 105, -105, 150, 1000]) for _ in range(d)], []))
    rng.shuffle(ops)
    eps = []
    for _ in range(ctx.scale(250, 4000)):
        w = W(rng)
        for _ in range(30): w.step()
        for k in sorted(w.p): w.e.do("get", [k])
        eps.append(w.e)
    ctx.conform(Suite("shapes", "geom.cpp", "Trace_Geom", batch(ops)), Suite("points", "geom.cpp", "Trace_Geom", eps))
