from vlib.core import *
from props.seqgen import history

def long_list(rng, kind, n):
    e = Ep()
    for i in range(n):
        e.do("push" if kind == "vector" or i % 2 else "pushfront", [0, rng.randint(-50, 50)])
    if kind == "list": e.do("sort", [0]); e.do("reverse", [0])
    e.do("copy", [1, 0]); e.do("cmp", [0, 1]); e.do("lastset", [1, 77]); e.do("cmp", [0, 1]); e.do("cmp", [1, 0])
    for i in (0, n // 2, n - 1): e.do("at", [0, i]); e.do("erase", [1, min(i, n - 4)])
    e.do("insert", [0, n, 5]); e.do("insert", [0, n // 2, 6]); e.do("size", [0]); e.do("iter", [0]); e.do("iter", [1])
    return e

def big(rng, kind, n, strings=False):
    """containers of n elements: every kind of call at both ends, in the middle, and on whole containers"""
    e = Ep(); lo, hi = (0, 9999) if strings else rng.choice([(-5, 5), (-10**6, 10**6), (0, 255)])
    w = [rng.randint(lo, hi) for _ in range(n)]; x = lambda: rng.randint(lo, hi); m = n
    e.do(rng.choice(["newstl", "assignstl"]), [0], w).do("newn", [2, rng.randint(1, n), x()])
    for _ in range(14):
        i = rng.choice([0, m - 1, m // 2, rng.randrange(m)])
        k = rng.choice(["push", "insert", "erase", "set", "pop", "pushself", "insself", "front"])
        if k == "push": e.do(k, [0, x()]); m += 1
        elif k == "insert": e.do(k, [0, rng.choice([i, m]), x()]); m += 1
        elif k == "erase": e.do(k, [0, i]); m -= 1
        elif k == "set": e.do(rng.choice(["atset", "itset"] + (["set", "getset"] if kind == "vector" else [])), [0, i, x()])
        elif k == "pop": e.do("pop", [0]); m -= 1
        elif k == "pushself": e.do(k, [0, i]); m += 1
        elif k == "insself": e.do(k, [0, rng.randint(0, m), i]); m += 1
        elif kind == "list": e.do("pushfront", [0, x()]).do("popfront", [0]).do("pushfront", [0, x()]); m += 1
        e.do(rng.choice(["at", "cat"] + (["get", "cget"] if kind == "vector" else [])), [0, rng.randrange(m)])
    e.do("size", [0]).do("copy", [1, 0]).do("cmp", [0, 1]).do("all", [0, 3])
    i = rng.randrange(m); e.do("atset", [1, i, x()]).do("cmp", [0, 1]).do("cmp", [1, 0])
    e.do("assign", [1, 0]).do("pop", [1]).do("cmp", [0, 1]).do("cmp", [1, 0]).do("assign", [1, 1]).do("assign", [2, 2]).do("cmp", [1, 2])
    if kind == "list":
        e.do("reverse", [0]).do("iter", [0]).do("sort", [0]).do("iter", [0]).do("sort", [2]).do("sort", [1]).do("merge", [1, 2]).do("size", [2]).do("riter", [1]).do("merge", [1, 0]).do("size", [0]).do("stl", [1])
    else: e.do("print", [0]) if strings else e.do("io", [2, 0]).do("cmp", [2, 0]).do("print", [2])
    for k in ("iter", "citer", "riter", "criter", "stl", "conv"): e.do(k, [rng.randrange(3)])
    return e.do("clear", [1]).do("size", [1]).do("push", [1, x()]).do("iter", [1]).do("iter", [0])

def huge(rng, kind, n):
    """more elements than a 16-bit counter holds: legal calls at both ends and in the middle, illegal ones just outside"""
    e = Ep().do("newn", [0, n, 3]).do("size", [0]); m = n
    for _ in range(10):
        i = rng.choice([0, m - 1, m // 2, rng.randrange(m)])
        e.do("atset", [0, i, rng.randint(4, 9)]).do(rng.choice(["at", "cat"] + (["get", "cget"] if kind == "vector" else [])), [0, i])
        k = rng.choice(["push", "insert", "erase", "pop"])
        if k == "push": e.do(k, [0, 5]); m += 1
        elif k == "insert": e.do(k, [0, rng.choice([i, m]), 5]); m += 1
        elif k == "erase": e.do(k, [0, i]); m -= 1
        else: e.do(k, [0]); m -= 1
        e.do("size", [0])
    for i in (m, m + 1, -1, m - 65536 - 1 if m < 65536 else m + 65536): e.do("at", [0, i], may=True).do("erase", [0, i], may=True)
    e.do("insert", [0, m + 1, 4], may=True).do("copy", [1, 0]).do("size", [1]).do("cmp", [0, 1]).do("lastset", [1, 1]).do("cmp", [0, 1]).do("cmp", [1, 0]).do("assign", [2, 0]).do("pop", [2]).do("cmp", [2, 0]).do("cmp", [0, 2])
    e.do("at", [1, m - 1]).do("last", [1]).do("clast", [1]).do("firstset", [1, 7]).do("at", [1, 0]).do("at", [1, m - 65536] if m > 65536 else [1, m // 2]).do("last", [1])
    e.do("last", [0]).do("first", [1]).do("cfirst", [1])
    if kind == "list": e.do("reverse", [0]).do("last", [0]).do("first", [0]).do("sort", [0]).do("last", [0]).do("at", [0, m // 2])
    return e.do("clear", [0]).do("size", [0]).do("push", [0, 1]).do("size", [0])

def run(ctx):
    ml = ctx.scale(3, 4)
    em = ctx.model(MC("MC_SeqADT", "MC_SeqADT_vector_FALSE%d.cfg" % ml, emit=True), MC("MC_SeqADT", "MC_SeqADT_list_FALSE%d.cfg" % ml, emit=True))
    suites = []
    iv = [0, 1, -1, 2, 3, 5, 100, -100, 2147483647, -2147483647, 65536]
    for kind, cont in (("vector", "Vector"), ("list", "List")):
        d = ["CONT=" + cont] + (["IS_LIST"] if kind == "list" else [])
        tr = em["MC_SeqADT_%s_FALSE%d.cfg" % (kind, ml)]
        mc = walks(tr, ctx.rng, maxlen=80)
        rnd = [history(ctx.rng, kind, 120, ctx.rng.choice([4, 8, 20, 60]), iv) for _ in range(ctx.scale(60, 1500))]
        rnd += [long_list(ctx.rng, kind, n) for n in (63, 64, 65, 128, 129, 300)]
        rnd += [big(ctx.rng, kind, n) for n in (15, 16, 17, 33, 100, 255, 256, 257, 511, 513, 1000, 1025) * ctx.scale(1, 10)] + [big(ctx.rng, kind, n) for n in ctx.scale((2500,), (2500, 5000))]
        rnd += [huge(ctx.rng, kind, n) for n in ctx.scale((32800, 65600), (32767, 32768, 32769, 65535, 65536, 65537, 70000, 131073))]
        rs = [history(ctx.rng, kind, 120, ctx.rng.choice([4, 8, 20]), [0, 1, 2, 10, 99, 100, 9999], strings=True) for _ in range(ctx.scale(40, 800))]
        rs += [big(ctx.rng, kind, n, True) for n in (40, 130, 300)]
        for e in rs[:5]: e.do("newd", [0, 3]); e.do("size", [0]); e.do("cat", [0, 2])
        dd = Ep()
        for k in range(0, 6): dd.do("newd", [0, k]); dd.do("iter", [0]); dd.do("size", [0])
        suites += [Suite(kind + "-int", "seq.cpp", "Trace_SeqADT", mc + rnd + [dd], defs=d + ["ELEM=int"]),
                   Suite(kind + "-string", "seq.cpp", "Trace_SeqADT", rs, cfg="Trace_SeqADT_str.cfg", defs=d + ["ELEM=std::string"])]
    ctx.conform(*suites)
