from vlib.core import *
def val(rng): return rng.choice([0, 1, -1, rng.randint(-99, 99), rng.randint(-99, 99), 2147483647, -2147483648, 2147483646, rng.randint(-2**31, 2**31 - 1)])

def rnd(rng, n, steps):
    e = Ep(); vs, es, se, ne, ns = set(), {}, {}, 1, 1000000
    for _ in range(steps):
        k = rng.random()
        if not vs or (k < .2 and len(vs) < n):
            x = rng.choice([i for i in range(1, n + 1) if i not in vs])
            loose = [w for w in vs if not any(w in ft for ft in es.values())]
            if loose and rng.random() < .3: e.do("copy", [x, rng.choice(loose)])
            else: e.do("mk", [x, val(rng)])
            vs.add(x)
        elif k < .5:
            f, t = rng.choice(sorted(vs)), rng.choice(sorted(vs))
            if rng.random() < .3 and es: f, t = rng.choice(sorted(es.values()))
            if rng.random() < .15: t = f
            e.do("edge", [ne, f, t, rng.choice([0, 0, val(rng)])]); es[ne] = (f, t); ne += 1
        elif k < .58:
            x = rng.choice(sorted(vs)); e.do("kill", [x]); vs.discard(x)
            es = {i: ft for i, ft in es.items() if x not in ft}
            se = {i: ft for i, ft in se.items() if x not in ft}
            e.do("all")
        elif k < .63: e.do("vset", [rng.choice(sorted(vs)), val(rng)])
        elif k < .67: e.do("vvalid", [rng.choice(sorted(vs)), rng.randint(0, 1)])
        elif k < .72:
            loose = [w for w in vs if not any(w in ft for ft in es.values())]
            if loose: e.do("assign", [rng.choice(loose), rng.choice(loose)])
        elif k < .78: e.do("vcmp", [rng.choice(sorted(vs)), rng.choice(sorted(vs))])
        elif k < .86 and es:
            x = rng.choice(sorted(es)); y = rng.choice(sorted(es))
            e.do(*rng.choice([("eset", [x, val(rng)]), ("evalid", [x, rng.randint(0, 1)]), ("einfo", [x]), ("ecmp", [x, y])]))
        elif k < .9:
            if rng.random() < .5 or not es:
                se[ns] = (rng.choice(sorted(vs)), rng.choice(sorted(vs))); e.do("smk", [ns, se[ns][0], se[ns][1], rng.choice([0, 5, -7, val(rng)])])
            else:
                x = rng.choice(sorted(es)); e.do("scopy", [ns, x]); se[ns] = es[x]
            ns += 1
        elif k < .94 and se:
            x = rng.choice(sorted(se))
            if es and rng.random() < .5:
                y = rng.choice(sorted(es)); e.do("sassign", [x, y]); se[x] = es[y]
            e.do("sinfo", [x])
        elif k < .97 and vs: e.do("look", [rng.choice(sorted(vs))])
        else: e.do("all")
    return e.do("all")

def hub(rng, n):
    """a vertex with n edges, loops and parallel edges included"""
    e = Ep(); k = min(n, 12); ne = 0; es = []
    for v in range(1, k + 2): e.do("mk", [v, rng.randint(-5, 5)])
    for _ in range(n):
        v = rng.randint(1, k + 1); ne += 1; f, t = rng.choice([(1, v), (v, 1), (1, 1), (v, rng.randint(1, k + 1))]); es.append((ne, f, t))
        e.do("edge", [ne, f, t, rng.randint(-9, 9)])
        if rng.random() < .05: e.do("look", [1])
    e.do("all")
    for v in rng.sample(range(2, k + 2), k // 2): e.do("kill", [v]).do("look", [1])
    e.do("all")
    for x, f, t in es[-3:]:
        if f == t == 1: e.do("eset", [x, 77]).do("einfo", [x])
    return e.do("kill", [1]).do("all")

def run(ctx):
    em = ctx.model(MC("MC_VGraph", "MC_VGraph_%s.cfg" % ctx.tier, emit=True))
    eps = []
    for h in em["MC_VGraph_%s.cfg" % ctx.tier]:
        e = Ep()
        for i in (1, 2, 3): e.do("mk", [i, i])
        for o in h["h"]:
            e.do(o["op"], o["a"])
        eps.append(e.do("all"))
    rng = ctx.rng
    eps += [rnd(rng, rng.choice([2, 3, 5, 8]), rng.choice([20, 40, 80])) for _ in range(ctx.scale(400, 6000))]
    eps += [rnd(rng, rng.choice([30, 60]), ctx.scale(300, 800)) for _ in range(ctx.scale(6, 60))] + [hub(rng, n) for n in (17, 40, 120, 300) for _ in range(ctx.scale(1, 6))]
    for n in ctx.scale((5000, 70000), (200, 5000, 33000, 70000, 140000)):
        e = Ep().do("mk", [1, 5]).do("mk", [2, -5]).do("edge", [1, 1, 2, 7]).do("mass", [1, 2, n]).do("edge", [2, 2, 1, 8]).do("mk", [3, 0]).do("ecmp", [1, 2]).do("vcmp", [1, 3]).do("all").do("mass", [2, 3, 30])
        eps.append(e.do("all"))
    ctx.conform(Suite("vgraph", "vgraph.cpp", "Trace_VGraph", eps))
    # copying a vertex that has out-edges shares the edge objects (see known_findings.txt)
    for key, text in known_findings("C08"):
        if key == "copy-shares-edges" and ctx.probe("vgraph.cpp", ["mk|1 1|||", "mk|2 2|||", "edge|1 1 2 5|||", "copy|3 1|||", "kill|1|||", "kill|3|||"]):
            ctx.known.append((key, text))
