import itertools
from vlib.core import *
from props.c10 import batch

INTS, DBL, ARR = (0, 2, 4, 6, 9, 12, 20, 21), (1, 3, 5, 7, 8), (0, 1, 10, 11, 13, 22, 23)
WIDE, FLT, SHORT, UNS, DISTINCT, K = (13, 14, 15, 16), (11, 18), (17, 22), (19, 23), (20,), 24
PLAIN = tuple(k for k in range(K) if k not in WIDE)
OPS = ("sum", "fsum", "gsum", "mean", "var", "sd", "svar", "ssd")
SUMS = ("sum", "fsum", "gsum")
M = 2**31 - 1

def add(ops, op, kind, d, data, n=None):
    raw = kind in ARR
    if kind in (10, 11, 13, 22, 23) and op not in SUMS + ("mean",): return
    if kind in DISTINCT: data = sorted(set(data))
    n = len(data) if n is None or not raw else n
    k = max(n, 0)
    if op in ("mean", "var", "sd") and n == 0: return
    if op in ("svar", "ssd") and 0 <= n < 2: return
    if kind in INTS + (10,) + WIDE + SHORT + UNS: d = 1
    lim = M if kind in INTS + UNS else 2**22 if kind in FLT else 32767 if kind in SHORT else 2**63 - 1 if kind in WIDE else 2**50
    if op == "gsum": lim //= 2
    pre = [0] + list(itertools.accumulate(data[:k]))
    if (op != "fsum" or kind in FLT) and any(abs(x) > lim or abs(pre[-1] - x) > lim for x in pre): return     # partial sums are exact, from the front or the back
    if kind in FLT and any(abs(x) >= 2**22 for x in data): return
    if kind in SHORT and any(abs(x) > lim for x in data): return
    if kind in UNS and any(x < 0 for x in data): return
    if kind in WIDE:
        if any(abs(x) >= 2**61 for x in data): return
        if op == "fsum" and any(abs(x) > 2**50 for x in pre): return        # the mapping returns a double
        if op in ("var", "sd", "svar", "ssd") and max(map(abs, data)) > 2**40: return
        data = [y for x in data for y in ((abs(x) >> 30) * (-1 if x < 0 else 1), (abs(x) & (2**30 - 1)) * (-1 if x < 0 else 1))]
    ops.append((op, [kind, d, n], data))

def run(ctx):
    cfg = "MC_Stats_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_Stats", cfg, emit=True))[cfg]
    rng = ctx.rng; ops = []
    sets = [t["s"] for t in em]
    if ctx.quick: rng.shuffle(sets)
    for s in sets if not ctx.quick else sets[:60]:
        for op in OPS:
            for k in range(K):
                if ctx.quick and rng.random() < .5: continue
                add(ops, op, k, rng.choice([1, 2, 4]), s)
    for k in range(K):
        for op in OPS:
            for n in (-1, -2, -5, 0): add(ops, op, k, 1, [5, 6], n)
            if op in SUMS: add(ops, op, k, 1, [])
            for s in ([46341, -46341], [65536, 65536, 1], [100000, -100000, 7], [2000000000], [1000000000, -1000000000], [M, -M], [0, M], [-M, M], [-2000000000, 2000000000], [M, -M] * 4, [M, 0, -M, -5, 7], [-1500000000, 1500000000, 1], [5], [0, 0, 0], [-4, -4], [1] * 50,
                      [100000000 + i for i in (0, 1, 2, 3)], [200000000 + i % 7 for i in range(9)], [30000000 - i for i in range(60)], [-70000, 70000] * 8):
                add(ops, op, k, rng.choice([1, 4]), s)
    for _ in range(ctx.scale(1500, 20000)):
        n = rng.choice([1, 2, 3, 5, 8, 13, 20, rng.randint(1, 40)]); w = rng.choice([3, 100, 10**4, 10**6, 10**8]); off = rng.choice([0, 0, 0, 5, 10**6, -10**7, 10**8])
        s = [max(-M, min(M, off + rng.randint(-w, w))) for _ in range(n)]
        for op in rng.sample(OPS, 3): add(ops, op, rng.choice(range(K)), rng.choice([1, 2, 4, 64]), s, rng.choice([n, n, rng.randint(0, n), -1]))
    for n in (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025):      # long data sets
        w = rng.choice([1, 50, 1000, 10**5]); off = rng.choice([0, 7, 10**5]); s = [off + rng.randint(-w, w) for _ in range(n)]
        for k in range(K):
            for op in OPS:
                if rng.random() < ctx.scale(.35, 1): add(ops, op, k, rng.choice([1, 4]), s)
    for n in (1001, 1025, 2049, 4100):              # long and wide: the sums need more digits than a float has
        for _ in range(ctx.scale(1, 5)):
            s = [rng.randint(-10**6, 10**6) * 2 + 1 for _ in range(n)]
            for k in range(K):
                for op in OPS:
                    if rng.random() < ctx.scale(.3, 1): add(ops, op, k, rng.choice([1, 4]), s)
    for n in (32769, 65537):                        # more elements than a 16-bit counter holds
        s = [rng.randint(-9, 9) for _ in range(n)]
        for k in range(K):
            for op in ("sum", "mean") + (("fsum", "gsum", "var", "svar") if k % 4 == 1 else ()): 
                if rng.random() < ctx.scale(.4, 1): add(ops, op, k, 1, s)
    for _ in range(ctx.scale(120, 2000)):       # data spanning more than the element type, with small sums
        s = []; t = 0
        for _ in range(rng.randint(2, 9)): x = rng.randint(0, M) * (-1 if t > 0 else 1); s.append(x); t += x
        for op in OPS: add(ops, op, rng.choice([0, 0, 1, 2, 3, 4, 5, 9, 12, 20, 21]), 1, s)
    for _ in range(ctx.scale(60, 1500)):        # the mean is one of the elements: the first, the last, the middle one, several
        c = rng.choice([0, 1, 5, -3, 1000]); h = [rng.randint(1, 50) for _ in range(rng.randint(1, 4))]; s = [c + x for x in h] + [c - x for x in h]; rng.shuffle(s)
        s = rng.choice([[c] + s + [c], [c] + s, s + [c], sorted(s), s[:1] + [c] * 3 + s[1:], [s[0]] + s[1:] + [2 * c - s[0], s[0]], s + s])
        for op in rng.sample(OPS[3:], 3) + ["var", "sd"]: add(ops, op, rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 17, 18, 19, 21]), rng.choice([1, 2]), s)
    for _ in range(ctx.scale(150, 3000)):       # 64-bit data: sums no double holds
        e = rng.choice([31, 40, 53, 54, 56, 60]); s = [rng.choice([1, -1, 1]) * (rng.randint(0, 2**e) | 1) for _ in range(rng.randint(1, 12))]
        if e < 55 and rng.random() < .5: s = [abs(x) for x in s]
        for op in OPS: add(ops, op, rng.choice(WIDE), 1, s, rng.choice([len(s), len(s), rng.randint(0, len(s)), -1]))
    for s in ([2**60 + 1] * 7 + [2**60 - 8], [-2**60 - 1] * 7, [2**61 - 1], [1 - 2**61], [2**61 - 1, 2**61 - 1, 2**61 - 1, 2**61 - 1, 3], [2**61 - 1, -2**61 + 2], [2**53, 1], [2**53, 1, 1], [-2**53, -1], [2**53 + 1], [2**61 - 3, 7, -5, 2**61 - 2]):
        for k in WIDE:
            for op in ("sum", "mean"): add(ops, op, k, 1, s)
    for s in ([32767], [-32767], [32767, -32767, 5], [181, 182, 183], [16383, 16383], [200] * 9, [30000, -30000, 30000], list(range(-100, 101)), [255, 255, 255], [1, 2], [7]):
        for k in SHORT + FLT:
            for op in OPS: add(ops, op, k, 1, s)
    for s in ([M], [M // 2, M // 2], [1, 2, 3], [0, M], [40000, 40000, 65536], [5, 0, 0], [1, 0], [3, 5, 9, 100000]):
        for k in UNS:
            for op in OPS: add(ops, op, k, 1, s)
    rng.shuffle(ops)
    ctx.conform(Suite("stats", "stats.cpp", "Trace_Stats", batch(ops)))
