from vlib.core import *
COPY, HARD = list(range(1, 25)), [30, 31, 32]

def retype(e, t):
    out = Ep()
    for op, a, b, c, may in e:
        out.do(op, (a[0], t, a[2]) if op == "new" else a)
    return out
def finish(e):
    """destroy everything that is left, then nothing may remain"""
    alive = set()
    for op, a, *_ in e:
        if op in ("new", "copy", "movc"): alive.add(a[0])
        if op == "del": alive.discard(a[0])
        if op in ("movc", "mova"): alive.discard(a[1])
    for k in sorted(alive): e.do("use", [k]); e.do("del", [k])
    return e.do("live")
def rnd(rng, steps, types):
    e = Ep(); o = {}
    for _ in range(steps):
        k = rng.random(); free = [i for i in range(1, 6) if i not in o]
        if not o or (free and k < .25):
            n = rng.choice(free); src = [i for i in o if o[i][0] < 30]
            if src and rng.random() < .5:
                s = rng.choice(src); mv = rng.random() < .3; e.do("movc" if mv else "copy", [n, s]); o[n] = o[s]
                if mv: del o[s]
            else: o[n] = (rng.choice(types), rng.randint(0, 3)); e.do("new", [n, o[n][0], o[n][1]])
            continue
        x = rng.choice(sorted(o)); same = [y for y in sorted(o) if o[y][0] == o[x][0]]; y = rng.choice(same)
        if k < .4 and o[x][0] < 30: e.do("asg", [x, y]); o[x] = o[y]
        elif k < .46 and o[x][0] < 30 and x != y: e.do("mova", [x, y]); o[x] = o.pop(y)
        elif k < .6: v = rng.randint(0, 3); e.do("mut", [x, v]); o[x] = (o[x][0], v)
        elif k < .75: e.do("tmp", [x, y])
        elif k < .88: e.do("use", [x])
        else:
            e.do("del", [x]); del o[x]
            if not o: e.do("live")
    return finish(e)

def run(ctx):
    cfg = "MC_Own_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_Own", cfg, emit=True))[cfg]
    rng = ctx.rng; eps = []
    base = walks(em, rng, 60)
    for t in COPY:
        eps += [finish(retype(e, t)) for e in base]
    for t in HARD:
        eps += [rnd(rng, 40, [t]) for _ in range(ctx.scale(20, 200))]
    eps += [rnd(rng, 50, rng.sample(COPY + HARD, 3)) for _ in range(ctx.scale(150, 2500))]
    ctx.conform(Suite("own", "own.cpp", "Trace_Own", eps))
