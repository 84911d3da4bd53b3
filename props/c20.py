import math, re
from vlib.core import *
from props.c10 import batch
from props.c19 import raw

def cases():
    s = open(os.path.join(SPEC, "Dist.tla")).read(); out = []
    nums = lambda t: [int(x) for x in t.split(",")]
    for m in re.finditer(r"\[d \|-> (\d+), p \|-> <<([^>]*)>>, e \|-> <<([^>]*)>>, f \|-> <<[^>]*>>, m \|-> (-?\d+)\]", s):
        out.append((int(m[1]), nums(m[2]), nums(m[3]), int(m[4])))
    return out
def tails():
    s = open(os.path.join(SPEC, "Dist.tla")).read(); nums = lambda t: [int(x) for x in t.split(",")]
    return [(int(m[1]), nums(m[2]), int(m[3]), nums(m[4])) for m in re.finditer(r"\[d \|-> (\d+), p \|-> <<([^>]*)>>, l \|-> (\d), e \|-> <<([^>]*)>>", s)]
def disc(rng, big):
    """a random discrete law: d, n, num, den, mean"""
    d = rng.randint(1, 5); den = rng.choice([2, 3, 4, 5, 7, 10, 20, 100])
    num = rng.randint(1, den - 1); n = 1
    if d == 2: n = rng.choice([0, 1, 2, 3, 7, 12, 20, 31, 33, 34, 35, 40, 60] if big else [0, 1, 2, 3, 5, 8, 13, 25, 33, 34, 36])
    if d == 3: num = rng.randint(1, den * rng.choice([1, 3, 12, 30]))
    if d == 5: n = rng.choice([1, 2, 3, 5, 9, 20])
    if d in (1, 2) and rng.random() < .12: num = rng.choice([0, den])
    if d in (4, 5) and rng.random() < .08: num = den
    if d in (4, 5) and num * 20 < den: num = den // 20 + 1
    return d, n, num, den
def kof(d, n, num, den):
    if d == 1: return 2
    if d == 2: return n + 1
    m = num / den if d == 3 else n * (den - num) / num
    v = m if d == 3 else m * den / num
    return int(m + 6 * math.sqrt(v) + 4)

def scripted(ctx, em):
    rng = ctx.rng; ops = []
    laws = [(t["d"], t["n"], t["num"], t["den"]) for t in em] + [(4, 1, num, 4) for num in (1, 2, 3, 4)] + [(1, 1, x, 4) for x in range(5)] + [(3, 1, x, 2) for x in (1, 3, 9, 20)] + [(2, 34, 1, 2), (2, 40, 3, 10), (2, 5, 0, 1), (2, 5, 1, 1), (2, 0, 1, 2)]
    laws += [disc(rng, not ctx.quick) for _ in range(ctx.scale(50, 600))]
    for l in laws:
        k = kof(*l); N = rng.choice([200, 500, 1000, 4096])
        if k <= 90: ops.append(("cdf", list(l) + [N, k], [], [rng.randint(0, 1)]))
        for u in (0, 1, 2**63, 2**64 - 1, 2**64 - 2**10, 2**64 - 2**11 - 1, 2**64 - 2**12 - 5, 2**64 - rng.getrandbits(18) - 1):
            ops.append(("ext", list(l), [], [rng.randint(0, 1)] + raw(u)))
    big = [(3, 1, x, 1) for x in (50, 100, 300, 700, 744, 746, 1000, 5000)] + [(3, 1, 1, 1000), (4, 1, 1, 100), (4, 1, 1, 1000), (5, 50, 1, 2), (5, 1100, 1, 2), (5, 400, 1, 10), (5, 3, 1, 100), (5, 2000, 9, 10)]
    big += [(2, n, num, 10) for n in (33, 34, 35, 50, 100, 500, 1030, 1100, 3000) for num in (1, 5, 9)]
    for l in big:
        for u in (0, 2**63, 2**64 - 1, 2**64 - 2**11, 2**64 - 2**12, 2**64 - rng.getrandbits(16) - 1):
            ops.append(("ext", list(l), [], [0] + raw(u)))
    E = [0, 1, 2**11, 2**32, 2**63, 2**63 - 1, 2**63 + 1, 2**64 - 2**11, 2**64 - 2**12, 2**64 - 1]
    for _ in range(ctx.scale(300, 4000)):
        d = rng.randint(1, 6)
        x = rng.choice([0, 1000, -2500, 10**6]) if d == 1 else rng.choice([500, 1000, 4000]) if d == 2 else rng.choice([1, 5, 40, 500, 1000, 1500, 3000, 250, 7700]) if d == 3 else rng.choice([1, 5, 10, 50, 300, 1000, 2000, 3000, 5500]) if d in (4, 5) else rng.choice([-1000, 0, 5])
        y = rng.choice([1, 1000, 2500]) if d in (1, 3) else x + rng.choice([1, 1000]) if d == 6 else 0
        ops.append(("extc", [d, x, y], [], [rng.randint(0, 1)] + sum([raw(rng.choice(E)) for _ in range(rng.randint(1, 4))], [])))
    rng.shuffle(ops)
    return batch(ops, 25)

def sampled(ctx):
    rng = ctx.rng; ops = []
    for i, (d, p, e, m) in enumerate(cases(), 1):
        for _ in range(ctx.scale(2, 12)):
            N = ctx.scale(20000, 40000)
            hint = [rng.choice([0, 0, -5, -9, -15, 5, 9]) if d in (3, 4, 5) and p[0] <= 10**5 else 0, rng.choice([0, 0, -40, -24, 20, 40]) if d in (1, 2, 3, 6) else 0]
            ops.append(("law", [i, rng.randint(1, 10**9), N], e, [rng.randint(0, 1), d] + p + hint))
            ops.append(("pair", [i, rng.randint(1, 10**9), N // 2], [m], [rng.randint(0, 1), d] + p + hint))
        if d in (3, 4) and p[0] % 1000 == 0 and p[0] <= 10**5:
            for j in (-5, -9, -15, 5, 15): ops.append(("law", [i, rng.randint(1, 10**9), 20000], e, [0, d] + p + [j, 0]))
        if d in (1, 2, 3, 6):
            for sc in (-40, -24, 40): ops.append(("law", [i, rng.randint(1, 10**9), 20000], e, [0, d] + p + [0, sc]))
    for i, (d, p, l, e) in enumerate(tails(), 1):
        for _ in range(ctx.scale(1, 6)): ops.append(("tail", [i, rng.randint(1, 10**9), (24 if d == 1 else ctx.scale(4, 10)) * 10**6], e, [rng.randint(0, 1), d] + p + [l]))
    for d, n, num, den in [(2, 34, 1, 2), (2, 40, 1, 2), (2, 67, 1, 3), (2, 100, 1, 2), (2, 400, 1, 5), (2, 1030, 1, 2), (2, 1200, 1, 2), (2, 3000, 1, 2), (2, 5000, 99, 100), (2, 20000, 1, 2), (2, 2000, 1, 100),
                           (3, 1, 60, 1), (3, 1, 400, 1), (3, 1, 740, 1), (3, 1, 750, 1), (3, 1, 1000, 1), (3, 1, 2503, 1), (3, 1, 20000, 1),
                           (5, 60, 1, 2), (5, 1000, 1, 2), (5, 1080, 1, 2), (5, 2000, 1, 2), (5, 330, 1, 10), (5, 500, 1, 10), (5, 3000, 3, 4), (5, 100, 1, 20), (5, 40, 1, 20)] + \
            ([] if ctx.quick else [(2, 100000, 1, 3), (3, 1, 100000, 1), (5, 20000, 1, 2), (5, 4000, 1, 25), (2, 50000, 1, 50), (3, 1, 33333, 2)]):
        mean, var = (n * num / den, n * num * (den - num) / den**2) if d == 2 else (num / den, num / den) if d == 3 else (n * (den - num) / num, n * (den - num) * den / num**2)
        sd = math.sqrt(var)
        for _ in range(ctx.scale(1, 3)):
            ops.append(("large", [d, n, num, den, 1000, math.ceil(mean - sd), round(mean), math.floor(mean + sd)], [rng.randint(1, 10**9)], [rng.randint(0, 1)]))
    V = [-1000, -1, 0, 1, 250, 500, 999, 1000, 1001, 2000, 7500]; W = [-1000, -1, 0, 1, 2, 5, 40]
    for d in range(1, 13):
        two = d in (2, 5, 6, 8, 11, 12)
        for x in (W if d in (2, 5, 12) else V):
            for y in ((W if d == 12 else V) if two else [0]):
                if d == 7 and x == 0: continue
                bad = BAD[d](x, y)
                ops.append(("make", [d, x, y], [], [rng.randint(0, 1)], bad))
    rng.shuffle(ops)
    return batch(ops, 20)
# calls for which an error is expected (only decides that they are tried in a child process)
BAD = {1: lambda x, y: x < 0 or x > 1000, 2: lambda x, y: x < 0 or y < 0 or y > 1000, 3: lambda x, y: x <= 0, 4: lambda x, y: x <= 0 or x > 1000,
       5: lambda x, y: x <= 0 or y <= 0 or y > 1000, 6: lambda x, y: y <= 0, 7: lambda x, y: x < 0, 8: lambda x, y: x <= 0 or y <= 0,
       9: lambda x, y: x <= 0, 10: lambda x, y: x <= 0, 11: lambda x, y: x > y, 12: lambda x, y: x >= y}

def run(ctx):
    c1 = "MC_Dist_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_Dist", c1, emit=True))
    eng = ("-include", os.path.join(VERIF, "harness", "engine.h"))
    ctx.conform(Suite("inverse", "dist.cpp", "Trace_Dist", scripted(ctx, em[c1]), cxx=eng, weight=lambda e: sum(100 if o[0] == "cdf" else 1 for o in e)),
                Suite("sampled", "dist.cpp", "Trace_Dist", sampled(ctx), weight=lambda e: 60 * len(e)))
