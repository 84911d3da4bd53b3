from vlib.core import *
from props import seqgen, lingen, assocgen
from props.seqgen import BIG

BADTEXT = ["", " ", "{", "}", "[1]", "1", "{1", "{1,", "{1,2", "{ 1 , ", "{1 2}", "{1;2}", "{,}", "{,1}", "{1,}", "{1,,2}", "{a}", "{1,a}", "{1,2,x,3}",
           "{1}}"[:2], "{-}", "{1,-}", "{+}", "{1.5}", "{1,2.5}", "{99999999999}", "{1,99999999999}", "{1,2,3,", "x{1}", "{{1}}", "{1,{2}}", "{\n", "{1\n,\n"]
GOODTEXT = ["{}", " { } ", "{1}", "{-1}", "{1,2}", "{ 1 , 2 ,3}", "\n{\t1\n,2}", "{007}", "{0}", "{+5,-6}", "{1}tail", "{ 12 }"]

def texts(rng, n):
    e = Ep()
    e.do("newi", [0], [4, 5]); e.do("newi", [1], [9])
    for t in BADTEXT: e.do("read", [0], t.encode(), may=True)
    for t in GOODTEXT: e.do("read", [0], t.encode(), may=True); e.do("iter", [0])
    for z in (63, 64, 65, 128, 200, 1000):
        t = "{" + ",".join(str(rng.randint(-99, 99)) for _ in range(z))
        for u in (t, t + ",", t + "}", t + ",x}", t + ",,1}", t + " 1}", t.replace(",", ";", 1) + "}", t[:-3].rstrip(",0123456789") + "-,1}"): e.do("read", [0], u.encode(), may=True); e.do("size", [0])
    for _ in range(n):
        t = "".join(rng.choice("{},12 -x") for _ in range(rng.randint(0, 7)))
        if rng.random() < .8: t = "{" + t
        e.do("read", [1], t.encode(), may=True); e.do("size", [1])
    return e

def boundary(rng, kind, n):
    """illegal indexes around the ends of a container that really has n elements"""
    e = Ep()
    for i in range(n): e.do("push", [0, i])
    ops = ["at", "cat", "erase", "atset", "insert"] + (["get", "cget", "set", "getset"] if kind == "vector" else [])
    for op in ops:
        for i in [-1, n, n + 1, 2 * n + 3] + BIG:
            if op == "insert" and i == n: i = n + 2
            e.do(op, [0, i] + ([7] if op in ("atset", "insert", "set", "getset") else []), may=True)
        if op != "insert" and n: e.do(op, [0, n - 1] + ([7] if op in ("atset", "set", "getset") else []), may=True)
        else: e.do("insert", [0, n, 3], may=True); n += 1
        if op == "erase": n = max(0, n - 1)
    e.do("iter", [0])
    return e

from props.c01 import huge
def run(ctx):
    q = ctx.quick
    cfgs = [("MC_SeqADT", "MC_SeqADT_vector_TRUE%d.cfg" % ctx.scale(2, 3)), ("MC_SeqADT", "MC_SeqADT_list_TRUE%d.cfg" % ctx.scale(2, 3)),
            ("MC_LinADT", "MC_LinADT_stack_TRUE3.cfg"), ("MC_LinADT", "MC_LinADT_queue_TRUE3.cfg"),
            ("MC_AssocADT", "MC_AssocADT_map_TRUE%s.cfg" % ctx.scale("q", "t")), ("MC_AssocADT", "MC_AssocADT_multiset_TRUE%s.cfg" % ctx.scale("q", "t"))]
    em = ctx.model(*[MC(m, c, emit=True) for m, c in cfgs])
    W = lambda i: walks(em[cfgs[i][1]], ctx.rng, 60)
    n = ctx.scale(12, 300)
    iv = [0, 1, 2, 3, 7]
    H = lambda k: [seqgen.history(ctx.rng, k, 60, 6, iv, illegal=.4) for _ in range(n)] + [boundary(ctx.rng, k, m) for m in (0, 1, 2, 7, 33)] + [huge(ctx.rng, k, m) for m in ctx.scale((65540,), (32768, 65540, 131075))]
    L = lambda k: [lingen.history(ctx.rng, k, 60, iv, illegal=.5, grow=.25) for _ in range(n)]
    A = lambda k: [assocgen.history(ctx.rng, k, 60, list(range(-3, 6)), illegal=.3) for _ in range(n)]
    ctx.conform(
        Suite("vector", "seq.cpp", "Trace_SeqADT", W(0) + H("vector") + [texts(ctx.rng, ctx.scale(150, 3000))], defs=["CONT=Vector", "ELEM=int"]),
        Suite("list", "seq.cpp", "Trace_SeqADT", W(1) + H("list"), defs=["CONT=List", "IS_LIST", "ELEM=int"]),
        Suite("stack", "lin.cpp", "Trace_LinADT", W(2) + L("stack"), cfg="Trace_LinADT_stack.cfg", defs=["ELEM=std::string"]),
        Suite("queue", "lin.cpp", "Trace_LinADT", W(3) + L("queue"), cfg="Trace_LinADT_queue.cfg", defs=["IS_QUEUE", "ELEM=std::string"]),
        Suite("map", "assoc.cpp", "Trace_AssocADT", W(4) + A("map"), cfg="Trace_AssocADT_map.cfg", defs=["KIND_MAP", "KEY=int"]),
        Suite("multiset", "assoc.cpp", "Trace_AssocADT", W(5) + A("multiset"), cfg="Trace_AssocADT_multiset.cfg", defs=["KIND_MULTISET", "KEY=int"]))
