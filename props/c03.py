from vlib.core import *
from props.assocgen import history

def big(rng, kind, n):
    """containers of about n keys built in different orders, then used everywhere"""
    pairs = kind in ("map", "multimap"); multi = kind.startswith("multi"); e = Ep(); val = lambda: rng.randint(-99, 99)
    ks = list(range(0, 7 * n, 7)); rng.choice([rng.shuffle, lambda l: l.reverse(), lambda l: None])(ks)
    src = ks + ([rng.choice(ks) for _ in range(n // 3)] if multi else rng.sample(ks, 3))
    e.do("newstl", [0], [x for k in src for x in ((k, val()) if pairs else (k,))]).do("size", [0]).do("iter", [0])
    have = set(ks)
    for _ in range(60):
        k = rng.choice(ks) if rng.random() < .6 else rng.randint(-3, 7 * n + 3); x = rng.random()
        if x < .3 and kind == "map": e.do(rng.choice(["set", "atset"]), [0, k, val()]); have.add(k)
        elif x < .3 and not pairs: e.do("insert", [0, k]); have.add(k)
        elif x < .5:
            if kind == "multiset" and k not in have: continue
            e.do("erase", [0, k]); have.discard(k)
        elif x < .9: e.do({"map": "contains", "set": "contains", "multimap": "find", "multiset": "count"}[kind], [0, k])
        else: e.do("size", [0])
    e.do("copy", [1, 0]).do("cmp", [0, 1]).do("iter", [1]).do("riter", [0]).do("assign", [2, 1]).do("citer", [2])
    mx = max(have); e.do("erase", [1, mx]).do("cmp", [0, 1]).do("cmp", [1, 0]).do("size", [1]).do("assign", [2, 2])
    if pairs: e.do("iteradd", [1, 2]).do("criter", [1]).do("cmp", [1, 0]).do("cmp", [0, 1])
    return e.do("stl", [2]).do("conv", [0]).do("clear", [0]).do("size", [0]).do("iter", [1])

def huge(rng, kind, n, same):
    """more entries than a 16-bit counter holds, with different keys or all with the same"""
    pairs = kind in ("map", "multimap"); k0 = rng.choice([0, -n // 2, 7]); step = 0 if same else 1; e = Ep().do("range", [0, n, k0, step]).do("size", [0])
    key = lambda: k0 if same and rng.random() < .7 else rng.choice([k0, k0 + n - 1, k0 + n, k0 - 1, k0 + n // 2, rng.randint(k0, k0 + n)])
    have = lambda k: k == k0 if same else k0 <= k < k0 + n
    look = {"map": ["contains"], "set": ["contains"], "multiset": ["contains", "count"], "multimap": ["count", "find"]}[kind]
    for _ in range(4): e.do(rng.choice(look), [0, key()])
    e.do("copy", [1, 0]).do("cmp", [0, 1]).do("assign", [2, 1]).do("size", [2])
    for _ in range(4):
        k = key()
        if kind == "map": e.do("set", [1, k, 5]).do("get", [1, k])
        elif not pairs: e.do("insert", [1, k])
        e.do(rng.choice(look), [1, k]).do("size", [1])
    e.do("cmp", [0, 1]).do("cmp", [1, 0]).do("iter", [0])
    k = rng.choice([k0, k0 + n - 1]) if not same else k0
    e.do("erase", [0, k]).do("size", [0]).do(look[0], [0, k]).do("cmp", [0, 2])
    if pairs and n < 5000: e.do("iteradd", [2, 1]).do("riter", [2])
    return e.do("clear", [2]).do("size", [2])

def order(rng, n):
    """a MultiMap keeps the pairs of one key in the order they came in: the same pairs in another order"""
    ps = [(rng.randint(0, 2), rng.randint(0, 3)) for _ in range(n)]; qs = ps[:]; rng.shuffle(qs); f = lambda l: [x for p in l for x in p]
    return Ep().do("newstl", [0], f(ps)).do("newstl", [1], f(qs)).do("iter", [0]).do("iter", [1]).do("cmp", [0, 1]).do("cmp", [1, 0]).do("find", [0, 1]).do("count", [1, 1]).do("erase", [0, 1]).do("erase", [1, 1]).do("cmp", [0, 1])

def run(ctx):
    T = ctx.scale("q", "t")
    kinds = ("map", "set", "multimap", "multiset")
    em = ctx.model(*[MC("MC_AssocADT", "MC_AssocADT_%s_FALSE%s.cfg" % (k, T), emit=True) for k in kinds])
    su = []
    for k in kinds:
        d = ["KIND_" + k.upper()]
        mc = walks(em["MC_AssocADT_%s_FALSE%s.cfg" % (k, T)], ctx.rng, 100)
        ks = lambda: ctx.rng.choice([[1, 2, 3], list(range(-5, 6)), list(range(40)), [0, 2147483647, -2147483648, 1, -1]])
        r = [history(ctx.rng, k, 150, ks()) for _ in range(ctx.scale(50, 1200))]
        r += [big(ctx.rng, k, n) for n in (17, 33, 65, 100, 129, 257, 400) * ctx.scale(1, 8)] + [big(ctx.rng, k, 1000)]
        r += [huge(ctx.rng, k, n, same) for n in ctx.scale((130, 260, 1100, 33000, 65600), (130, 260, 600, 1100, 5000, 33000, 65536, 65600, 131100)) for same in ((False, True) if k.startswith("multi") else (False,)) if n < 60000 or not same]
        if k == "multimap": r += [order(ctx.rng, n) for n in (2, 3, 5, 9, 20) for _ in range(ctx.scale(4, 40))]
        rs = [history(ctx.rng, k, 150, list(range(0, 12))) for _ in range(ctx.scale(25, 500))]
        su += [Suite(k + "-int", "assoc.cpp", "Trace_AssocADT", mc + r, cfg="Trace_AssocADT_%s.cfg" % k, defs=d + ["KEY=int"]),
               Suite(k + "-string", "assoc.cpp", "Trace_AssocADT", rs, cfg="Trace_AssocADT_%s.cfg" % k, defs=d + ["KEY=std::string"])]
    ctx.conform(*su)
