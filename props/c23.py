from vlib.core import *
from props.c10 import batch
MX = {0: 2**31 - 1, 1: 2**63 - 1, 6: 2**32 - 1, 7: 2**15 - 1}
o = lambda s: [ord(c) for c in s]

def run(ctx):
    cfg = "MC_Func_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_Func", cfg, emit=True))[cfg]; rng = ctx.rng; ops = []
    flat = lambda ls: sum([[len(l)] + l for l in ls], [])
    def zp(ls): ops.append(("zip", [], flat(ls), [rng.randint(0, 3)]))
    def mf(l):
        k = rng.randint(0, 7); b = sorted(set(l)) if k == 6 else sorted(l) if k == 7 else l
        ops.append(("map", [k, rng.randint(0, 4)], b, [])); k2 = rng.randint(0, 5); ops.append(("filter", [k2, rng.randint(0, 5)], l, [])); ops.append(("filter", [k, rng.randint(0, 5)], b, []))
    def cast(ty, t): ops.append(("cast", [ty], t, [rng.randint(0, 3)]))
    rng.shuffle(em)
    for t in em[:ctx.scale(400, 10**9)]:
        zp([t["x"], t["y"]]); zp([t["x"], t["y"], t["x"] + t["y"]]); mf(t["x"] + t["y"])
    L = lambda n, w: [rng.randint(-w, w) for _ in range(n)]
    for _ in range(ctx.scale(700, 12000)):
        n = rng.choice([0, 1, 2, 5, 9, 20]); zp([L(max(0, n + rng.choice([0, 0, -1, 1, 3, -3, 7])), 30000) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9]))])
        mf(L(rng.choice([0, 1, 2, 7, 15, 40]), rng.choice([4, 100, 30000])))
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1025):
        zp([L(max(0, n + rng.choice([0, 0, -1, 1, 300])), 30000) for _ in range(rng.randint(1, 4))]); zp([L(n, 9), L(n + 1, 9)]); zp([L(n + 1, 9), L(n, 9)])
        for _ in range(3): mf(L(n, rng.choice([4, 100, 30000])))
        t = o("x" * n) if n % 2 else o("0" * n + "12"); cast(5, t); cast(0, o("0" * n + "12")); cast(1, o(" " * n + "-77")); cast(2, o(" " * n + "1.5"))
    bl = lambda: [rng.choice([32, 9, 10, 11, 12, 13]) for _ in range(rng.choice([0, 0, 0, 1, 2, 5]))]
    for ty in (0, 1, 6, 7):
        M = MX[ty]; m = 0 if ty == 6 else -M - 1
        for v in [0, 1, M, M - 1, M + 1, M * 10, 10**25] + ([m, m + 1, m - 1, -1, -10**25] if m else []):
            for how in range(4): ops.append(("cast", [ty], o(str(v)), [how]))
        for _ in range(ctx.scale(150, 3000)):
            v = rng.choice([rng.randint(m, M), rng.randint(m // 3, M * 2), rng.randint(0, 300)]); s = str(v)
            if ty == 6 and v < 0: continue
            if rng.random() < .2: s = "+" + s if v >= 0 else s
            if rng.random() < .2: s = s.replace("-", "-000") if v < 0 else "00" + s.lstrip("+")
            cast(ty, bl() + o(s) + rng.choice([[], [], bl(), o(" 7"), o(".5"), o(",3"), o("abc"), o("\n9"), o(";")]))
        for s in ["", " ", "\t\n  ", "q", "#12", "+", "-", "--5", "+-3", "- 5", ".5", ",", "/", ":9", " x1"]:
            if ty == 6 and s.strip().startswith("-"): continue
            for how in range(4): ops.append(("cast", [ty], o(s), [how]))
    for _ in range(ctx.scale(400, 6000)):
        w = rng.choice([str(rng.randint(0, 9)), str(rng.randint(0, 10**rng.randint(1, 12))), ""]); f = "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 3, 8])))
        s = rng.choice(["", "", "-", "+"]) + w + rng.choice(["." + f, "." + f, ""] if w else ["." + (f or "5")]) + rng.choice(["", "", "", "e%d" % rng.randint(-8, 8), "E+%d" % rng.randint(0, 6), "e-%02d" % rng.randint(0, 9)])
        cast(2, bl() + o(s) + rng.choice([[], [32], o(" 8"), o("\t")]))
        cast(5, bl() + [rng.choice([c for c in range(256)]) for _ in range(rng.randint(0, 12))]); cast(4, bl() + [rng.randint(0, 255) for _ in range(rng.randint(0, 3))])
        cast(3, bl() + o(rng.choice(["0", "1"])))
    for s in ["", "  ", "q5", "#", "1e0", "0", "-0", "123456789012", "0.000001", "-0.0000015", "1.0000000001", "99999.999999"]:
        for how in range(4): ops.append(("cast", [2], o(s), [how]))
    for ty in (3, 4, 5):
        for how in range(4): ops.append(("cast", [ty], [], [how])); ops.append(("cast", [ty], [32, 9], [how]))
    rng.shuffle(ops)
    ctx.conform(Suite("func", "func.cpp", "Trace_Func", batch(ops)))
