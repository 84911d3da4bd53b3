from vlib.core import *
from props.lingen import history

def longq(rng, n):
    e = Ep()
    for i in range(n): e.do("push", [0, i])
    e.do("copy", [1, 0])
    for i in range(n // 2): e.do("pop", [0])
    for i in range(n // 2): e.do("push", [0, -i])
    e.do("size", [0]); e.do("cmp", [0, 1]); e.do("clear", [1]); e.do("size", [1]); e.do("drain", [0]); e.do("drain", [1])
    return e

def bigq(rng, kind, n):
    e = Ep(); x = lambda: rng.randint(-999, 999); m = n
    e.do("newstl", [0], [x() for _ in range(n)]).do("copy", [1, 0]).do("cmp", [0, 1])
    for _ in range(30):
        k = rng.choice(["push", "pop", "pushself", "lastset"] + (["firstset"] if kind == "queue" else []))
        e.do(k, [0, x()] if k in ("push", "lastset", "firstset") else [0]); m += (k in ("push", "pushself")) - (k == "pop")
        e.do(rng.choice(["last", "clast"] + (["first", "cfirst"] if kind == "queue" else [])), [0])
    e.do("size", [0]).do("cmp", [0, 1]).do("cmp", [1, 0]).do("stl", [0]).do("conv", [0]).do("assign", [2, 0]).do("assign", [2, 2]).do("cmp", [2, 0]).do("push", [2, 1]).do("cmp", [2, 0]).do("cmp", [0, 2])
    return e.do("stl", [1]).do("clear", [1]).do("size", [1]).do("push", [1, 3]).do("stl", [1]).do("drain", [2]).do("size", [2]).do("drain", [0])

def hugeq(rng, kind, n):
    """more elements than a 16-bit counter holds"""
    e = Ep().do("fill", [0, n]).do("size", [0]).do("last", [0])
    for _ in range(6): e.do("push", [0, rng.randint(-9, 9)]).do("pop", [0]).do("size", [0]).do("clast", [0])
    e.do("copy", [1, 0]).do("cmp", [0, 1]).do("pop", [1]).do("cmp", [0, 1]).do("cmp", [1, 0]).do("assign", [2, 0]).do("lastset", [2, -1]).do("cmp", [0, 2]).do("size", [2])
    return e.do("stl", [1]).do("clear", [1]).do("size", [1]).do("push", [1, 3]).do("pop", [1]).do("drain", [0]).do("size", [0])

def run(ctx):
    ml = ctx.scale(3, 4)
    em = ctx.model(*[MC("MC_LinADT", "MC_LinADT_%s_FALSE%d.cfg" % (k, ml), emit=True) for k in ("stack", "queue")])
    su = []
    for kind in ("stack", "queue"):
        d = ["IS_QUEUE"] if kind == "queue" else []
        mc = walks(em["MC_LinADT_%s_FALSE%d.cfg" % (kind, ml)], ctx.rng, 80)
        iv = [0, 1, -1, 2, 3, 100, 2147483647, -2147483648]
        r = [history(ctx.rng, kind, 150, iv, grow=ctx.rng.choice([.5, .6, .9])) for _ in range(ctx.scale(80, 2000))] + [longq(ctx.rng, n) for n in (64, 129, 600)] + [bigq(ctx.rng, kind, n) for n in (17, 100, 255, 257, 512, 1000, 2500) * ctx.scale(1, 10)] + [hugeq(ctx.rng, kind, n) for n in ctx.scale((5000, 32768, 65537), (5000, 20000, 32767, 32768, 65535, 65536, 65537, 131073))]
        rs = [history(ctx.rng, kind, 150, [0, 1, 2, 3, 99]) for _ in range(ctx.scale(40, 800))]
        su += [Suite(kind + "-int", "lin.cpp", "Trace_LinADT", mc + r, cfg="Trace_LinADT_%s.cfg" % kind, defs=d + ["ELEM=int"]),
               Suite(kind + "-string", "lin.cpp", "Trace_LinADT", rs, cfg="Trace_LinADT_%s.cfg" % kind, defs=d + ["ELEM=std::string"])]
    ctx.conform(*su)
