from vlib.core import *
from props import jsongen as G

# A light shadow of the objects, used only to choose legal calls.
def dec(f, i):
    t = f[i]
    if t == 5:
        n = f[i + 1]; i += 2; l = []
        for _ in range(n): x, i = dec(f, i); l.append(x)
        return l, i
    if t == 6:
        n = f[i + 1]; i += 2; d = {}
        for _ in range(n):
            m = f[i]; k = tuple(f[i + 1:i + 1 + m]); d[k], i = dec(f, i + 1 + m)
        return d, i
    if t == 4: return "s", i + 2 + f[i + 1]
    return None, i + (1, 2, 2, 4)[t]
val = lambda f: dec(f, 0)[0]
def paths(x, p=()):
    yield p
    if isinstance(x, list):
        for i, y in enumerate(x): yield from paths(y, p + (i,))
    elif isinstance(x, dict):
        for k, y in x.items(): yield from paths(y, p + (k,))
def enc(p):
    r = [len(p)]
    for s in p: r += [0, s] if isinstance(s, int) else [1, len(s)] + list(s)
    return r
def get(x, p):
    for s in p: x = x[s]
    return x
def clone(x):
    return [clone(y) for y in x] if isinstance(x, list) else {k: clone(y) for k, y in x.items()} if isinstance(x, dict) else x
def upd(x, p, w):
    if not p: return w
    s = p[0]
    if isinstance(s, int):
        x = x if isinstance(x, list) else []
        while len(x) <= s: x.append(None)
    else:
        x = x if isinstance(x, dict) else {}
        x.setdefault(s, None)
    x[s] = upd(x[s], p[1:], w)
    return x
def size(x): return 1 + sum(map(size, x if isinstance(x, list) else x.values() if isinstance(x, dict) else []))

def rnd(rng, steps):
    e = Ep(); o = {}
    def pick(k, fresh=False):
        p = rng.choice(list(paths(o[k])))
        if fresh and rng.random() < .4:
            p += tuple(rng.choice([rng.choice([0, 1, 2, 4]), (97,), (98, 34), (), (97, 0), (97, 0, 98)]) for _ in range(rng.choice([1, 1, 2])))
        return p
    for _ in range(steps):
        k = rng.random(); free = [i for i in range(1, 5) if i not in o]
        if not o or (free and k < .12):
            n = rng.choice(free); q = rng.random()
            if not o or q < .5:
                v = G.value(rng, rng.choice([0, 1, 2, 3]))
                while len(v) > 60: v = G.value(rng, 2)
                e.do("mk", [n, rng.randint(0, 1)], v); o[n] = val(v)
            elif q < .65:
                t = rng.randrange(7); e.do("build", [n, t]); o[n] = [None, None, None, None, "s", [], {}][t]
            elif q < .9:
                s = rng.choice(sorted(o)); e.do("copy", [n, s]); o[n] = clone(o[s])
            else:
                s = rng.choice(sorted(o)); e.do("move", [n, s]); o[n] = o[s]; o[s] = None
            continue
        x = rng.choice(sorted(o)); y = rng.choice(sorted(o)); how = rng.randint(0, 1)
        if size(o[x]) > 40 or k < .16:
            e.do("del", [x]); del o[x]
        elif k < .34:
            p = pick(x, True); v = G.value(rng, rng.choice([0, 0, 1]))
            if len(v) > 40: v = [0]
            e.do("set", [x, rng.randint(0, 2), how], enc(p) + list(v)); o[x] = upd(o[x], p, val(v))
        elif k < .44:
            p = pick(x, True); n = rng.choice([1, 1, 2, 3]); v = []
            for _ in range(n): v += G.leaf(rng)
            e.do("app", [x, 0, how], enc(p) + [5, n] + v)
            try: old = get(o[x], p)
            except Exception: old = None
            o[x] = upd(o[x], p, (old if isinstance(old, list) else []) + val([5, n] + v))
        elif k < .66:
            p, q = pick(x), pick(y)
            op = rng.choice(["asg", "asg", "mva", "apn"])
            if op == "mva" and x == y and p[:len(q)] == q: op = "asg"
            w = clone(get(o[y], q))
            e.do(op, [x, y, how], enc(p) + enc(q))
            if op == "mva": o[y] = upd(o[y], q, None)
            if op == "apn":
                old = get(o[x], p); w = (old if isinstance(old, list) else []) + [w]
            o[x] = upd(o[x], p, w)
            e.do("see", [x]); e.do("see", [y])
        elif k < .68:
            q = pick(y); h = pick(x); w = get(o[x], h); p = h
            if isinstance(w, list): p = h + (len(w) + rng.choice([0, 0, 1, 7]),)
            elif isinstance(w, dict): p = h + (rng.choice([(97,), (98, 34), (97, 0, 98), (99,)]),)
            op = rng.choice(["rasg", "rasg", "rmva", "rapn"])
            if op == "rmva" and x == y and p[:len(q)] == q: op = "rasg"
            try: old = get(o[x], p)
            except Exception: old = None
            o[x] = upd(o[x], p, old); w = clone(get(o[y], q))
            e.do(op, [x, y, how], enc(p) + enc(q))
            if op == "rmva": o[y] = upd(o[y], q, None)
            if op == "rapn": w = (old if isinstance(old, list) else []) + [w]
            o[x] = upd(o[x], p, w); e.do("see", [x]); e.do("see", [y])
        elif k < .71:
            p = pick(x); v = G.leaf(rng)
            e.do("fill", [x, 0, how], enc(p) + v); w = get(o[x], p)
            if isinstance(w, list): w[:] = [val(v) for _ in w]
            elif isinstance(w, dict):
                for z in w: w[z] = val(v)
        elif k < .74:
            p = pick(x, True)
            try: w = get(o[x], p)
            except Exception: w = None
            e.do("touch", [x, 0, how], enc(p)); o[x] = upd(o[x], p, w)
        elif k < .82: e.do("cget", [x], enc(pick(x)))
        elif k < .88: e.do("info", [x], enc(pick(x)))
        elif k < .94:
            p = pick(x); w = get(o[x], p)
            key = rng.choice(list(w)) if isinstance(w, dict) and w and rng.random() < .5 else rng.choice([(97,), (98, 34), (), (97, 0), (97, 0, 98), (0,)])
            e.do("key", [x], enc(p) + list(key))
            if isinstance(w, dict) or rng.random() < .3: e.do("cat", [x], enc(p) + list(key))
            if isinstance(w, list): e.do("cai", [x, rng.choice([0, len(w), max(0, len(w) - 1), len(w) + 3])], enc(p))
            elif rng.random() < .3: e.do("cai", [x, rng.choice([0, 0, 1, 5])], enc(p))
        else: e.do("see", [x])
    for x in sorted(o): e.do("see", [x])
    return e

def wide(rng, n):
    """long arrays and objects of many keys, grown past their ends by every road"""
    e = Ep(); k = 0
    e.do("build", [1, 5]).do("build", [2, 6])
    while k < n:
        how = rng.randint(0, 1); q = rng.random()
        if q < .3: e.do("set", [1, rng.randint(0, 2), how], enc((k,)) + G.leaf(rng)); k += 1
        elif q < .5: m = rng.choice([1, 2, 3]); v = [x for _ in range(m) for x in G.leaf(rng)]; e.do("app", [1, 0, how], enc(()) + [5, m] + v); k += m
        elif q < .65: m = rng.choice([1, 2, 5, 9]); e.do("set", [1, 0, how], enc((k + m,)) + G.leaf(rng)); k += m + 1
        elif q < .8: e.do("touch", [1, 0, how], enc((k,))); k += 1
        elif q < .9: e.do("apn", [1, 1, how], enc(()) + enc((rng.randrange(k),))) if k else None; k += 1 if k else 0
        elif k: e.do("set", [1, 0, how], enc((rng.randrange(k),)) + G.leaf(rng))
        if k and rng.random() < .4: e.do(rng.choice(["rasg", "rasg", "rmva"]), [1, 1, how], enc((k,)) + enc((rng.randrange(k),))); k += 1
        key = tuple(97 + c for c in divmod(rng.randrange(n), 7))
        e.do("set", [2, rng.randint(0, 2), rng.randint(0, 1)], enc((key,)) + G.leaf(rng))
        if k: e.do("cai", [1, rng.choice([0, k, k - 1, k + 3])], enc(()))
        if rng.random() < .2: e.do("info", [1], enc(())).do("key", [2], enc(()) + list(key)).do("cat", [2], enc(()) + list(key))
    e.do("see", [1]).do("see", [2]).do("copy", [3, 1]).do("asg", [2, 1, 0], enc((key,)) + enc(())).do("see", [2]).do("fill", [1, 0, 0], enc(()) + G.leaf(rng)).do("see", [3])
    return e

def lists(rng):
    """initializer lists, repeated keys included (the last one counts), and long keys"""
    e = Ep(); long = tuple(rng.randint(97, 99) for _ in range(rng.choice([255, 256, 257, 300, 1025])))
    keys = [(97,), (97, 0), (98, 34), (), long, long[:-1], long + (97,)]
    for n in (1, 2, 3, 5):
        q = [rng.choice(keys[:rng.choice([2, 4, 7])]) for _ in range(n)]; v = [6, n]
        for k in q: v += [len(k)] + list(k) + G.leaf(rng)
        e.do("mk", [n, rng.choice([1, 1, 0])], v).do("see", [n])
        for k in keys[:5]: e.do("key", [n], enc(()) + list(k))
    for k in (long, long[:-1], long + (97,)):
        for how in (0, 1): e.do("set", [1, rng.randint(0, 2), how], enc((k,)) + G.leaf(rng)).do("cat", [1], enc(()) + list(k))
    return e.do("see", [1]).do("copy", [4, 1]).do("see", [4])

def run(ctx):
    cfgs = ["MC_JsonObj_quick.cfg"] + ([] if ctx.quick else ["MC_JsonObj_thorough.cfg", "MC_JsonObj_thorough1.cfg"])
    em = ctx.model(*[MC("MC_JsonObj", c, emit=True) for c in cfgs])
    rng = ctx.rng; eps = []
    hs = [h for c in cfgs for h in em[c]]
    hs.sort(key=lambda h: json.dumps(h))
    for h in rng.sample(hs, min(len(hs), ctx.scale(6000, 60000))):
        e = Ep()
        for i, v in enumerate(h["s"]): e.do("mk", [i + 1, 0], v)
        for o in h["h"]: e.do(o["op"], o["a"] + [rng.randint(0, 1)], o["b"])
        for i in range(len(h["s"])): e.do("see", [i + 1])
        eps.append(e)
    eps += [rnd(rng, rng.choice([15, 30, 60])) for _ in range(ctx.scale(500, 8000))]
    eps += [wide(rng, n) for n in (7, 9, 12, 17, 20, 33, 40, 65) for _ in range(ctx.scale(2, 20))]
    eps += [lists(rng) for _ in range(ctx.scale(30, 600))]
    ctx.conform(Suite("jsonobj", "json.cpp", "Trace_JsonObj", eps))
