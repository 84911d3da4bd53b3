from vlib.core import *
I64 = 2**63

def num(rng, n):
    """text of a number of at most n digits, sometimes with leading zeros"""
    k = rng.random()
    m = rng.choice([1, 1, 2, n // 2, n // 2, max(1, n - 1), n, rng.randint(1, n)])
    if k < .12: v = 0
    elif k < .3: v = 10**m - 1
    elif k < .45: v = 10**(m - 1)
    elif k < .55: v = 10**m - rng.choice([2, 10, 11])
    else: v = rng.randint(0, 10**m - 1)
    v = max(0, v)
    return -v if rng.random() < .45 else v
def text(rng, v, cap):
    s = str(abs(v))
    if rng.random() < .1: s = "0" * min(rng.choice([1, 3, 99]), cap - len(s)) + s
    return ("-" if v < 0 or (v == 0 and rng.random() < .2) else "") + s
T = lambda s: list(s.encode())

def rnd(rng, cap, steps):
    e = Ep(); o = {}; fits = lambda v: abs(v) < 10**cap
    for _ in range(steps):
        k = rng.random(); free = [i for i in range(1, 6) if i not in o]
        how = rng.randrange(6)
        if not o or (free and k < .15):
            n = rng.choice(free)
            if o and rng.random() < .3: s = rng.choice(sorted(o)); e.do("copy", [n, s, 0, how]); o[n] = o[s]
            elif rng.random() < .1: e.do("new", [n, 0, 0, how]); o[n] = 0
            else:
                v = num(rng, cap); o[n] = v
                if rng.random() < .4:
                    v = max(-I64, min(I64 - 1, v)) if rng.random() < .8 or cap < 19 else rng.choice([-I64, I64 - 1, -I64 + 1]); o[n] = v
                    e.do("new", [n, 0, 0, how | 1], T(str(v)))
                else: e.do("new", [n, 0, 0, how & ~1], T(text(rng, v, cap)))
            continue
        x = rng.choice(sorted(o)); y = rng.choice(sorted(o))
        small = rng.random() < .35
        v = num(rng, cap)
        if small: v = max(-I64, min(I64 - 1, v))
        w = v if small else o[y]; b = T(str(v)) if small else []
        if k < .22 and not free: e.do("del", [x]); del o[x]
        elif k < .30: e.do("asg", [x, y, 0, (how | 1) if small else how], b); o[x] = w
        elif k < .55 and free:
            op = rng.choice(["add", "sub", "mul"]); z = o[x] + w if op == "add" else o[x] - w if op == "sub" else o[x] * w
            if fits(z): e.do(op, [x, y, free[0], how], b); o[free[0]] = z
        elif k < .75:
            op = rng.choice(["addc", "subc", "mulc"]); z = o[x] + w if op == "addc" else o[x] - w if op == "subc" else o[x] * w
            if fits(z): e.do(op, [x, y, 0, how], b); o[x] = z
        elif k < .82:
            op = rng.choice(["inc", "dec"]); z = o[x] + (1 if op == "inc" else -1)
            if fits(z): e.do(op, [x, rng.randint(0, 1), 0, how]); o[x] = z
        elif k < .87 and free: e.do("neg", [x, 0, free[0], how]); o[free[0]] = -o[x]
        elif k < .90 and free: e.do("abs", [x, 0, free[0], how]); o[free[0]] = abs(o[x])
        elif k < .97: e.do("cmp", [x, y], b)
        elif o[x]: e.do("dig", [x, rng.randrange(len(str(abs(o[x]))))])
        else: e.do("str", [x, 0, 0, how])
    for x in sorted(o): e.do("str", [x, 0, 0, rng.randrange(3)])
    return e

def near(rng, v, cap):
    """a number that differs from v in one digit, or only in its sign or length"""
    s = list(str(abs(v))); i = rng.randrange(len(s)); k = rng.random()
    if k < .7: s[i] = str((int(s[i]) + rng.choice([1, 9, 5])) % 10)
    elif k < .8 and len(s) < cap: s.insert(i, rng.choice("0159"))
    elif k < .9 and len(s) > 1: s.pop(i)
    w = int("".join(s))
    return -w if (v < 0) != (k > .95) else w

def long(rng, cap, n):
    """numbers that fill the capacity: comparisons, carries and borrows anywhere along them"""
    e = Ep(); fits = lambda v: abs(v) < 10**cap
    for _ in range(n):
        m = rng.choice([cap, cap, cap - 1, rng.randint(1, cap)])
        v = rng.choice([10**m - 1, 10**(m - 1), rng.randint(10**(m - 1), 10**m - 1), int("".join(rng.choice("09") for _ in range(m)))]) * rng.choice([1, 1, -1])
        w = near(rng, v, cap); u = num(rng, cap)
        e.do("new", [1, 0, 0, 0], T(str(v))).do("new", [2, 0, 0, 0], T(str(w))).do("cmp", [1, 2]).do("cmp", [2, 1]).do("copy", [3, 1, 0, 0]).do("cmp", [1, 3])
        for op, z in (("sub", v - w), ("add", v + w)):
            if fits(z): e.do(op, [1, 2, 4, 0])
            if fits(z) and fits(z + u): e.do("new", [5, 0, 0, 0], T(str(u))).do("addc", [4, 5, 0, 0]).do("del", [5])
            if fits(z): e.do("del", [4])
        if w: e.do("dig", [2, rng.randrange(len(str(abs(w))))])
        for i in (1, 2, 3): e.do("del", [i])
        p = rng.choice([1, m // 2, m // 3, 18]); p = max(1, min(p, m - 1)) if m > 1 else 1
        x, y = rng.choice([10**p - 1, rng.randint(0, 10**p - 1)]), rng.choice([10**(m - p) - 1, rng.randint(0, 10**(m - p))])
        if fits(x * y): e.do("new", [1, 0, 0, 0], T(str(x))).do("new", [2, 0, 0, 0], T(str(-y))).do("mul", [1, 2, 3, 0]).do("mulc", [2, 1, 0, 0]).do("del", [1]).do("del", [2]).do("del", [3])
    return e

def nines(rng, cap, n):
    """products of very long numbers: the largest column sums and carries"""
    e = Ep()
    for _ in range(n):
        p = rng.choice([cap // 2, cap // 2 - 1, cap // 3]); x = rng.choice([10**p - 1, 10**p - 1, int("".join(rng.choice("89") for _ in range(p)))]); q = cap - p
        y = rng.choice([10**q - 1, int("".join(rng.choice("99998") for _ in range(q)))]) * rng.choice([1, -1])
        e.do("new", [1, 0, 0, 0], T(str(x))).do("new", [2, 0, 0, 0], T(str(y))).do("mul", [1, 2, 3, 0]).do("mulc", [2, 1, 0, 0]).do("cmp", [2, 3]).do("del", [1]).do("del", [2]).do("del", [3])
    return e

def padded(rng, cap, n):
    """texts with any number of leading zeros; a few digits against many"""
    e = Ep(); fits = lambda v: abs(v) < 10**cap
    for _ in range(n):
        m = rng.choice([1, 1, 1, 2, 3, rng.randint(1, cap)]); v = rng.choice([0, 1, rng.randint(0, 10**m - 1), rng.randint(0, 10**m - 1)]); t = str(v)
        t = rng.choice(["", "-"]) + "0" * rng.choice([0, min(1, cap - len(t)), cap - len(t), cap - len(t), rng.randint(0, cap - len(t))]) + t; v = int(t)
        w = rng.choice([1, -1, 2, 5, -9, 10, 99, 10**(cap - 1), 1 - 10**(cap - 1), num(rng, cap)])
        e.do("new", [1, 0, 0, 0], T(t)).do("str", [1, 0, 0, 0]).do("new", [2, 0, 0, 0], T(text(rng, w, cap))).do("cmp", [1, 2]).do("cmp", [2, 1]).do("neg", [1, 0, 3, 0]).do("cmp", [1, 3]).do("del", [3])
        for op, z in (("mul", v * w), ("add", v + w), ("sub", v - w)):
            if fits(z): e.do(op, [1, 2, 3, 0]).do("cmp", [3, 1]).do("del", [3]).do(op, [2, 1, 3, 0]).do("del", [3])
        if fits(v + 1): e.do("inc", [1, rng.randint(0, 1), 0, 0])
        e.do("del", [1]).do("del", [2])
    return e

def run(ctx):
    cfg = "MC_BigNum_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_BigNum", cfg, emit=True), MC("MC_BigNum", "MC_BigNum_base3.cfg"), *([] if ctx.quick else [MC("MC_BigNum", "MC_BigNum_thorough3.cfg")]))
    rng = ctx.rng; pairs = []; e = Ep()
    pick = em[cfg] if not ctx.quick else rng.sample(em[cfg], 4000)
    for p in pick:
        x, y = p["x"], p["y"]
        e.do("new", [1, 0, 0, rng.randrange(6)], x).do("new", [2, 0, 0, rng.randrange(6)], y)
        for op, n in (("add", 3), ("sub", 4), ("mul", 5)): e.do(op, [1, 2, n, rng.randrange(3)], [] if rng.random() < .6 else y)
        e.do("cmp", [1, 2]).do(rng.choice(["addc", "subc", "mulc"]), [1, rng.choice([1, 2]), 0, rng.randrange(3)])
        for i in range(1, 6): e.do("del", [i])
        if len(e) > 200: pairs.append(e); e = Ep()
    if e: pairs.append(e)
    D = ("-fsanitize=bounds", "-fno-sanitize-recover=bounds")
    def s(cap, eps): return Suite("cap%d" % cap, "bignum.cpp", "Trace_BigNum", eps, defs=("CAP=%d" % cap,), cxx=D, cfg="Trace_BigNum_%d.cfg" % cap)
    ctx.conform(s(6, [rnd(rng, 6, rng.choice([20, 60])) for _ in range(ctx.scale(250, 4000))]),
                s(12, pairs + [rnd(rng, 12, rng.choice([20, 60])) for _ in range(ctx.scale(150, 2500))]),
                s(40, [rnd(rng, 40, rng.choice([20, 60])) for _ in range(ctx.scale(150, 2500))] + [long(rng, 40, 8) for _ in range(ctx.scale(20, 200))] + [padded(rng, 40, 12) for _ in range(ctx.scale(20, 200))]),
                s(110, [rnd(rng, 110, rng.choice([20, 60])) for _ in range(ctx.scale(30, 500))] + [long(rng, 110, 8) for _ in range(ctx.scale(25, 300))] + [padded(rng, 110, 8) for _ in range(ctx.scale(12, 200))]),
                s(300, [long(rng, 300, 6) for _ in range(ctx.scale(12, 150))]),
                s(900, [nines(rng, 900, 1) for _ in range(ctx.scale(4, 24))] + [long(rng, 900, 1) for _ in range(ctx.scale(4, 24))]))
