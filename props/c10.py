from vlib.core import *
from props import jsongen as G

def batch(ops, n=60):
    eps = []
    for i in range(0, len(ops), n):
        e = Ep()
        for o in ops[i:i + n]: e.do(*o)
        eps.append(e)
    return eps

def run(ctx):
    em = ctx.model(MC("MC_JsonVal", "MC_JsonVal_%s.cfg" % ctx.tier, emit=True))
    rng = ctx.rng
    ops = []
    vals = sorted({tuple(t["b"]) for k in em.values() for t in k})
    for v in vals:
        ops.append(("dump", [rng.randint(0, 1), 0], v))
        if rng.random() < .3: ops.append(("again", [rng.randint(0, 1)], v))
    for _ in range(ctx.scale(4000, 60000)):
        v = G.value(rng, rng.choice([0, 1, 2, 3, 4]))
        if len(v) > 600: continue
        ops.append(("dump", [rng.randint(0, 1), rng.choice([0, 0, 0, 1, 2, 3, 4])], v))
        ops.append(("again", [rng.randint(0, 1)], v))
    for c in range(1, 256):      # every byte in a string and in a key
        for v in ([4, 1, c], [4, 3, 97, c, 98], [6, 1, 1, c, 0], [6, 1, 2, c, 92, 4, 1, c]):
            ops += [("dump", [0, 0], v), ("dump", [1, 0], v), ("again", [0], v), ("again", [1], v), ("esc", [], [c, 97, c])]
    for d in (20, 60):           # deep nesting
        v = [4, 1, 97]
        for i in range(d): v = [5, 1] + v if i % 2 else [6, 1, 1, 107] + v
        ops += [("dump", [0, 0], v), ("again", [1], v)]
    for d in (128, 300):
        v = [5, 1] * d + [4, 1, 97]; ops += [("dump", [0, 0], v), ("again", [1], v)]
    for n in ctx.scale((127, 128, 255, 256, 300, 1000, 2500), (127, 128, 255, 256, 300, 1000, 2500, 6000)):     # long strings, keys, arrays and objects
        s = [rng.choice([34, 92, 10, 97, 98, 32, 200]) if rng.random() < .3 else 120 for _ in range(n)]
        a = [5, n]; o = [6, min(n // 3, 60)]
        for i in range(n): a += rng.choice([[0], [1, 1], [2, i], [2, -i], [4, 1, 97], [5, 0], [6, 0]])
        for i in range(o[1]): k = [ord(c) for c in "%05d" % i]; o += [5] + k + rng.choice([[0], [2, i], [4, 2, 34, 92], [5, 1, 0]])
        for v in ([4, n] + s, [6, 1, n] + s + [2, 7], a, o): ops += [("dump", [rng.randint(0, 1), 0], v), ("again", [rng.randint(0, 1)], v)]
        ops.append(("esc", [], s))
    for _ in range(ctx.scale(150, 1500)):      # numbers of every magnitude that are still exact; special characters far into a string
        x = [3, rng.choice([1, -1]), rng.choice([rng.randint(10**8, 10**9 - 1), rng.randint(1, 9) * 10**8, rng.randint(10, 99) * 10**7]), rng.randint(-8, 9)]; ops += [("dump", [rng.randint(0, 1), 0], x), ("again", [rng.randint(0, 1)], x)]
        s = [120] * rng.randint(5, 60); s += [rng.choice([8, 9, 10, 12, 13, 34, 92, 47, 1, 200])] + [rng.choice([98, 8, 9, 10, 12, 13, 34, 92]) for _ in range(rng.randint(0, 3))]
        ops += [("dump", [rng.randint(0, 1), 0], v) for v in ([4, len(s)] + s, [6, 1, len(s)] + s + [2, 1])] + [("esc", [], s)]
    for m, e in ((100000000, 200), (999999999, 290), (123456789, 50), (223344556, 9), (999999999, 12), (100000000, -20), (499999999, -15), (500000001, -15)):
        ops += [("again", [0], [3, s, m, e]) for s in (1, -1)]
    for _ in range(ctx.scale(400, 4000)): ops.append(("esc", [], G.rstr(rng, True)))
    for n in ctx.scale((1, 300, 33000, 65600), (1, 300, 33000, 65600, 99000)):       # large values given by a formula
        ops += [("repd", [k, n]) for k in (0, 3)]
        if n < 70000: ops.append(("repd", [1, min(n, ctx.scale(20000, 66000))]))
    ops += [("repd", [4, n]) for n in (300, 600)]
    rng.shuffle(ops)
    ctx.conform(Suite("json", "json.cpp", "Trace_JsonText", batch(ops), weight=lambda e: sum(1 + (o[1][1] * (8 if o[1][0] == 1 else 1) / 100 if o[0] == "repd" else len(o[2]) / 100) for o in e)))
