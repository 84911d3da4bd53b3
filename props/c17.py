import math
from vlib.core import *
from props.c10 import batch

I32, I64, U32, D53 = 2**31 - 1, 2**63 - 1, 2**32 - 1, 2**53
LIM = {0: I32, 1: I64, 2: I64, 3: I64, 4: U32, 5: I32}
ARG = {0: (I32, I32), 1: (I64, I64), 2: (I32, I64), 3: (I64, I32), 4: (U32, U32), 5: (32767, 32767)}

def big(v):
    s, u, d = (v > 0) - (v < 0), abs(v), []
    while u: d.append(u % 10000); u //= 10000
    return [s, len(d)] + d

def val(rng, m):
    k = rng.random()
    if k < .05: return 0
    if k < .35: v = rng.randint(1, min(m, 60))
    elif k < .6: v = rng.randint(1, min(m, 100000))
    elif k < .7: v = m - rng.randint(0, 3)
    elif k < .85: v = min(m, math.prod(rng.choice([2, 2, 3, 5, 7, 12, 60]) for _ in range(rng.randint(1, 18)))) or 1
    else: v = rng.randint(1, m)
    return v

def run(ctx):
    cfg = "MC_IntMath_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_IntMath", cfg, emit=True))[cfg]
    rng = ctx.rng; ops = []
    def g(op, t, x, y):
        if op == "lcm" and ((x == 0 and y == 0) or abs(x * y) > LIM[t]): return
        if op == "lcm" and t == 5 and x and y and abs(x * y) // math.gcd(x, y) > 32767: return
        ops.append((op, [t], big(x) + big(y)))
    def comb(op, t, n, r):
        if r < 0 or n < 0 or r > n: ops.append((op, [t, n, r], (), (), True)); return
        l = 32767 if t == 5 else LIM[t]
        v = math.perm(n, r) if op == "perm" else math.comb(n, r)
        if v <= l and n <= l: ops.append((op, [t, n, r]))
    def pw(op, t, x, e, k=0):
        l = {0: I32, 1: I64, 6: D53}[t] if op == "gpow" else I64
        if e < 0: ops.append((op, [t, e, k], big(x), (), True)); return
        if abs(x) > l or (abs(x) > 1 and (e > 64 or (abs(x) ** e > l and (t == 6 or x ** e != -l - 1)))): return
        ops.append((op, [t, e, k], big(x)))
    for t in em:
        x, y = t["x"], t["y"]
        if t["alg"] == "gcd":
            for ty in range(6):
                if ctx.quick and rng.random() < .4: continue
                g("gcd", ty, x, y); g("lcm", ty, x, y)
        elif t["alg"] == "pow":
            for ty in (0, 1, 6): pw("gpow", ty, x, y, rng.randint(0, 3))
            pw("bpow", 1, x, y)
        else:
            for ty in (0, 1): comb("binom", ty, x, y); comb("binom", ty, x, x - y)
    # boundaries
    for t in (0, 1, 5):
        for n in range(-3, 22):
            if n < 0: ops.append(("fact", [t, n], (), (), True))
            elif math.factorial(n) <= (32767 if t == 5 else LIM[t]): ops.append(("fact", [t, n]))
            for r in range(-2, n + 3 if n >= 0 else 2):
                comb("perm", t, n, r)
                if t != 5: comb("binom", t, n, r)
    for n in (30, 33, 34, 35, 61, 62, 66, 67): 
        for r in range(0, n + 1, 1 if not ctx.quick else 3): comb("binom", 0, n, r); comb("binom", 1, n, r)
        for r in (n // 2, n // 2 + 1): comb("binom", 0, n, r); comb("binom", 1, n, r)
    for n in (100, 1000, 65536, 65537, 100000): 
        for r in (0, 1, 2, 3, n - 2, n - 1, n): comb("binom", 1, n, r); comb("binom", 0, n, r); comb("perm", 1, n, r if r < 5 else 1); comb("perm", 0, n, r if r < 5 else 2)
    for t, l in ((0, I32), (1, I64), (4, U32), (5, 32767)):         # the largest permutations and binomials that fit
        for r in range(2, 13):
            lo, hi = r, min(l, I32)
            while lo < hi:
                m = (lo + hi + 1) // 2
                if math.perm(m, r) <= l: lo = m
                else: hi = m - 1
            for n in (lo, lo - 1, lo - 2, max(r, lo * 2 // 3)): comb("perm", t, n, r)
            if t != 5:
                while math.comb(lo, r) <= l and lo < 3000: lo += 1
                for n in (lo - 1, lo - 2): 
                    if n < 3000: comb("binom", t, n, r)
    for _ in range(ctx.scale(150, 2000)):
        r = rng.randint(2, 9); n = rng.randint(r, max(r, int(I64 ** (1 / r)))); comb("perm", 1, min(n, I32), r); comb("perm", 4, n % 2000 + r, rng.randint(0, 3))
    for n in range(13): ops.append(("fact", [4, n]))
    for e in list(range(1, 14)) + [I32, I32 - 5, 10**6]:
        for m in ([0, -1, 1, 0], [0, -1, 1, 1], [0, -1, 1, -1], [-1, 0, 0, -1], [0, 1, 1, 0], [1, -1, 1, 0], [1, 0, 0, 1]):
            for k in (4, 5): ops.append((rng.choice(["mpow", "spow"]), [0, min(e, I32 - 5), k], m))
    for e in (0, 1, 2, 3, 4, 1000, 65536, I32, I32 - 1):               # exponents no int holds: 2^32 + e (k = 4), 2^62 + e (k = 5)
        for b in (0, 1, -1):
            for k in (4, 5): 
                for t in (0, 1, 6): pw("gpow", t, b, e, k)
    for e in range(0, 64):
        for b in (0, 1, -1, 2, -2, 3, -3, 4, 5, 7, -7, 10, -10): pw("bpow", 1, b, e); pw("gpow", 1, b, e, e % 4); pw("gpow", 0, b, e, e % 4); pw("gpow", 6, b, e, e % 4)
    for e in range(1, 64):                     # the largest bases whose power fits, and the first that reaches the lowest number
        for t, l in ((0, I32), (1, I64), (6, D53)):
            b = int(round(l ** (1 / e)))
            while b ** e > l: b -= 1
            while (b + 1) ** e <= l: b += 1
            for s in (b, -b, b - 1, 1 - b, -b - 1):
                pw("gpow", t, s, e, e % 4)
                if t == 1: pw("bpow", 1, s, e)
    for e in (0, 1, 2, 3): 
        for b in (I64, -I64, I32, -I32, 3037000499, -3037000499, 2097151, 46340, -46340, 1290): pw("bpow", 1, b, e); pw("gpow", 1, b, e, e); pw("gpow", 0, b, e, e); pw("gpow", 6, b, e, e)
    for e in (I32, I32 - 1, 1 << 30, 65536, 1001):
        for b in (0, 1, -1): pw("bpow", 1, b, e); pw("gpow", 0, b, e, rng.choice([0, 2, 3])); pw("gpow", 1, b, e, 2)
    for e in (-1, -2, -I32): pw("bpow", 1, rng.choice([0, 1, 2, -3]), e); pw("gpow", 1, 3, e, 2); pw("gpow", 0, 1, e); ops.append(("fpow", [0, e, 0], [1, 2], (), True))
    for e in (0, -1, -7): ops.append(("spow", [0, e, 0], [1, 1, 1, 0], (), True))
    # random
    for _ in range(ctx.scale(1500, 20000)):
        t = rng.randint(0, 5); m1, m2 = ARG[t]
        x, y = val(rng, m1), val(rng, m2)
        if rng.random() < .3:
            d = val(rng, 1000) or 1; x, y = min(m1 // d * d, x * d), min(m2 // d * d, y * d)
        if t != 4 and rng.random() < .25: x = -x
        if t != 4 and rng.random() < .25: y = -y
        if x.bit_length() > 40 and y.bit_length() > 40 and rng.random() < .6: y >>= 25
        g("gcd", t, x, y); g("lcm", t, x, y)
        if abs(x * y) > LIM[t]: g("lcm", t, x % 46000, y % 46000 if t != 5 else y % 181)
    for _ in range(ctx.scale(300, 6000)):
        e = rng.choice([rng.randint(0, 6), rng.randint(0, 40)]); b = rng.choice([rng.randint(-12, 12), rng.randint(-2000, 2000)])
        pw(rng.choice(["bpow", "gpow"]), 1, b, e); pw("gpow", 0, b, e, rng.randint(0, 3)); pw("gpow", 6, b, e, rng.randint(0, 3))
        if b and abs(b) ** e < 10 ** 119: ops.append(("bigpow", [0, e, rng.randint(0, 3)], big(b)))
        n, d = rng.randint(-40, 40), rng.choice([1, 2, 2, 3, 5, 9, rng.randint(1, 60)])
        q = math.gcd(n, d); n //= q; d //= q
        while max(abs(n), d) ** e > I32: e -= 1
        ops.append(("fpow", [0, e, rng.randint(0, 3)], [n, d]))
        for e2 in (30, 29, 17): ops.append(("fpow", [0, e2, 0], [rng.choice([1, -1]), 2]))
        m = [rng.randint(-3, 3) for _ in range(4)]
        e = rng.randint(1, rng.choice([4, 9, 22])); ops.append((rng.choice(["mpow", "spow"]), [0, e, rng.randint(0, 3)], m))
    ops.append(("mpow", [0, 90, 0], [1, 1, 1, 0])); ops.append(("spow", [0, 91, 2], [1, 1, 1, 0]))
    rng.shuffle(ops)
    ctx.conform(Suite("intmath", "intmath.cpp", "Trace_IntMath", batch(ops)))
