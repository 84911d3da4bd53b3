import struct
from vlib.core import *
from props.c10 import batch
MX, MN = 2**31 - 1, -2**31

def key(v):
    u = struct.unpack(">Q", struct.pack(">d", v + 0.0))[0]
    if v == 0: u = 0
    u = (~u) & (2**64 - 1) if u >> 63 else u | 1 << 63
    return [u >> s & 65535 for s in (48, 32, 16, 0)]
def raw(u): return [u >> s & 65535 for s in (48, 32, 16, 0)]
def rawof(rng, cls=None):
    cls = rng.randint(0, 7) if cls is None else cls
    return {0: 0, 1: 1, 2: rng.getrandbits(64), 3: 1 << 63, 4: 2**64 - 2, 5: 2**64 - 1, 6: 2**64 - 1 - rng.getrandbits(rng.randint(1, 12)),
            7: (rng.getrandbits(32) << 32 | rng.choice([0, 2**31, 2**31 - 1, 2**32 - 1]))}[cls]

def scripted(ctx, em):
    rng = ctx.rng; ops = []
    def go(op, a, b, bad, cls=None):
        how = rng.randint(0, 2)
        if op in ("int0",) and how == 2: how = 0
        ops.append((op, a, b, [how] + raw(rawof(rng, cls)), bad))
    unit = [(0.0, 1.0), (1.0, 1.0 + 2**-52), (-1.0, 1.0), (0.0, 5e-324), (1e15, 1e15 + 1), (-3.5, -3.5), (0.1, 0.3), (-1e-9, 1e300), (1e16, 1e16 + 2), (-0.7, -0.2), (3.0, 10.0), (-1e307, 1e307)]
    for t in em:
        lo, hi, c = t["lo"], t["hi"], t["cls"]
        for s in (1, 1000, 2**28 if ctx.quick else 2**26):
            go("int2", [lo * s, hi * s], [], hi <= lo, c)
        go("dbl2", [], key(lo * .1) + key(hi * .1), hi < lo, c)
        go("dbl2", [], key(1 + lo * 2.0**-52) + key(1 + hi * 2.0**-52), hi < lo, c)
        go("int1", [hi], [], hi <= 0, c); go("dbl1", [], key(hi / 3), hi < 0, c)
        go("int0", [], [], False, c); go("dbl0", [], [], False, c); go("bool", [], [], False, c)
    for lo, hi in [(MN, MX), (MN, 0), (-1, MX), (MN, MN + 1), (MX - 1, MX), (-2000000000, 2000000000), (MN, 1), (0, MX), (-5, 5), (MX, MN), (0, MN), (7, 7), (-1073741825, 1073741825), (MN + 1, MX)]:
        for c in list(range(8)) * 3: go("int2", [lo, hi], [], hi <= lo, c)
    for lo, hi in unit:
        for c in list(range(8)) * 2:
            go("dbl2", [], key(lo) + key(hi), False, c)
            if hi >= 0: go("dbl1", [], key(hi), False, c)
            go("dbl2", [], key(hi) + key(lo), lo != hi, c)
    for c in list(range(8)) * 8:
        go("int0", [], [], False, c); go("dbl0", [], [], False, c); go("bool", [], [], False, c)
        go("int1", [rng.choice([1, 2, 3, 7, 1000, MX, MX - 1, 2**30])], [], False, c); go("int1", [rng.choice([0, -1, MN])], [], True, c)
        go("dbl1", [], key(rng.choice([0.0, 1.0, 1e-300, 3.7, 1e300])), False, c); go("dbl1", [], key(rng.choice([-1.0, -1e-300])), True, c)
    for _ in range(ctx.scale(3000, 60000)):
        lo, hi = sorted(rng.choice([rng.randint(MN, MX), rng.randint(-10, 10)]) for _ in range(2))
        go("int2", [lo, hi], [], hi <= lo)
        x, y = sorted(rng.choice([rng.uniform(-1, 1), rng.uniform(-1e9, 1e9), rng.randint(-5, 5) * 1.0]) for _ in range(2))
        go("dbl2", [], key(x) + key(y), False)
    rng.shuffle(ops)
    return batch(ops)

def freq(ctx, hows, count):
    rng = ctx.rng; ops = []
    for _ in range(count):
        n, seed = 6000, rng.randint(MN, MX)
        for kind in range(15):
            how = rng.choice(hows)
            m = 2 if kind == 3 else rng.randint(2, 24)
            lo = rng.choice([0, -3, rng.randint(-10**6, 10**6)]); s = 1
            if kind == 12: m = 2 ** rng.randint(1, 4)
            if kind in (6, 11): m = rng.randint(2, 12); s = (2**32 - 2) // m if rng.random() < .5 else rng.randint(1, (2**32 - 2) // m); lo = rng.randint(MN, MX - s * m)
            if kind in (8, 9):
                s = rng.randint(1, MX // m)
                if rng.random() < .5: m = 2 ** rng.randint(1, 4); s = 2 ** rng.randint(0, 30 - m.bit_length() + 1)
            if kind in (13, 14): lo = rng.randint(-24, 12); s = rng.choice([1010, -1000, 0, 20, 60, -60, 500, -500, 1000, rng.randint(-1000, 1010)])
            if kind == 10: s = rng.randint(1, 36)
            ops.append(("freq", [n, m, kind, seed, lo] + ([s] if kind in (6, 8, 9, 10, 11, 13, 14) else []), [how]))
    return batch(ops, 30)

def histories(ctx):
    rng = ctx.rng; eps = []
    for _ in range(ctx.scale(60, 400)):
        e = Ep(); seeds = [rng.choice([0, 1, -1, MN, MX, 12345, rng.randint(MN, MX)]) for _ in range(2)]; live = {}
        plan = [rng.choice([("int0", [], []), ("int1", [rng.randint(1, 100)], []), ("int2", [rng.randint(-9, 0), rng.randint(1, 9)], []), ("bool", [], []), ("dbl0", [], []),
                            ("dbl1", [], key(2.5)), ("dbl2", [], key(-1.5) + key(2.0)), ("dist", [rng.randint(0, 10)], [])]) for _ in range(8)]
        for _ in range(60):
            k = rng.random(); free = [i for i in (1, 2, 3, 4) if i not in live]
            if free and (not live or k < .15):
                g = rng.choice(free)
                if live and rng.random() < .3: h = rng.choice(sorted(live)); e.do("copy", [g, h]); live[g] = live[h]
                else: s = rng.choice(seeds); e.do("new", [g, s]); live[g] = 0
            elif k < .2: g = rng.choice(sorted(live)); e.do("del", [g]); del live[g]
            elif k < .28: g = rng.choice(sorted(live)); e.do("seed", [g, rng.choice(seeds)]); live[g] = 0
            elif k < .32: g, h = rng.choice(sorted(live)), rng.choice(sorted(live)); e.do("asg", [g, h]); live[g] = live[h]
            else:
                g = rng.choice(sorted(live)); op, a, b = plan[live[g] % len(plan)]
                if rng.random() < .1: op, a, b = rng.choice(plan)
                e.do(op, [g] + a, b); live[g] += 1
        for s in seeds: e.do("fresh", [s])
        e.do("fresh", [rng.randint(MN, MX)])
        eps.append(e)
    e = Ep()
    for s in list(range(-20, 20)) + [MN, MX, 65536, 65537, 1 << 20, 1 << 30, -65536, 10**9]: e.do("fresh", [s])
    for s in (3, -3, MN): e.do("fresh", [s])
    return eps + [e]

def run(ctx):
    c1, c2 = "MC_RandRange_%s.cfg" % ctx.tier, "MC_RandSeq_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_RandRange", c1, emit=True), MC("MC_RandSeq", c2, emit=True))
    w = walks(em[c2], ctx.rng, 40, maxeps=ctx.scale(40, 400))
    hs = histories(ctx)
    eng = ("-include", os.path.join(VERIF, "harness", "engine.h"))
    ctx.conform(Suite("range", "random.cpp", "Trace_RandRange", scripted(ctx, em[c1]) + freq(ctx, [1, 1, 1, 0, 2], ctx.scale(40, 400)), cxx=eng, weight=lambda e: sum(20 if o[0] == "freq" else 1 for o in e)),
                Suite("freq", "random.cpp", "Trace_RandRange", freq(ctx, [0, 2], ctx.scale(60, 600)), weight=lambda e: 20 * len(e)),
                Suite("history", "random.cpp", "Trace_RandSeq", w + hs, weight=lambda e: 6 * len(e)))
