from vlib.core import *
import itertools

def flat(ws):
    r = []
    for w in ws: r += list(w) + [0]
    return r

def rnd(rng, n, letters, maxlen, al=0, steps=None, pool=None):
    """one trie: random inserts and removals of a small pool of related words"""
    if pool is None:
        cs = rng.sample(range(2, letters + 2), min(letters, rng.choice([1, 2, 3, 5, letters])))
        pool = set()
        while len(pool) < n:
            if pool and rng.random() < .6:
                w = list(rng.choice(sorted(pool))); w = w[:rng.randint(0, len(w))]
            else: w = []
            w += [rng.choice(cs) for _ in range(rng.randint(0, max(0, maxlen - len(w))))]
            pool.add(tuple(w)); n -= .1
        pool = sorted(pool)
    e = Ep().do("new", [0, al])
    for i in range(steps or 2 * len(pool)):
        w = rng.choice(pool)
        k = rng.random()
        if k < .6: e.do("ins", [0], w)
        elif k < .85: e.do("rem", [0], w)
        elif k < .95: e.do("has", [0], w)
        else: e.do("iter", [0])
    return e.do("iter", [0]).do("hasall", [0], flat(pool)).do("iter", [0])

def many(rng, steps):
    """several tries with different alphabets side by side"""
    e = Ep(); live = {}
    size = {0: 26, 1: 26, 2: 52, 3: 254, 4: 26, 5: 10}
    word = lambda t: [rng.randint(2, min(size[live[t]] + 1, rng.choice([4, 6, 300]))) for _ in range(rng.randint(0, 4))]
    for _ in range(steps):
        k = rng.random()
        if not live or (k < .08 and len(live) < 4):
            t = min(x for x in range(5) if x not in live)
            if live and rng.random() < .4:
                s = rng.choice(sorted(live)); e.do("copy", [t, s]); live[t] = live[s]
            else: live[t] = rng.randint(0, 5); e.do("new", [t, live[t]])
            continue
        t = rng.choice(sorted(live))
        if k < .11: e.do("del", [t]); del live[t]
        elif k < .13: s = rng.choice(sorted(live)); e.do("asg", [t, s]); live[t] = live[s]
        elif k < .6: e.do("ins", [t], word(t))
        elif k < .72: e.do("rem", [t], word(t))
        elif k < .9: e.do("has", [t], word(t))
        else: e.do("iter", [t])
    for t in sorted(live): e.do("iter", [t])
    return e

def run(ctx):
    rng = ctx.rng
    em = ctx.model(MC("DATrie", "DATrie_%s.cfg" % ctx.tier, emit=True), MC("DATrie", "DATrie_%s2.cfg" % ctx.tier, emit=True))
    U1 = [w for n in range(3) for w in itertools.product((2, 3, 4), repeat=n)]
    U2 = [w for n in range(4) for w in itertools.product((2, 3), repeat=n)]
    eps = []
    for i, (c, hs) in enumerate(em.items()):
        u = flat(U1 if not c.endswith("2.cfg") else U2)
        for h in hs:
            e = Ep().do("new", [0, 0])
            for o in h["h"]: e.do(o["op"], [0], o["b"])
            eps.append(e.do("iter", [0]).do("hasall", [0], u))
    r = [rnd(rng, rng.choice([4, 8, 15]), 26, rng.choice([2, 3, 6])) for _ in range(ctx.scale(500, 6000))]
    r += [rnd(rng, rng.choice([20, 40]), 26, rng.choice([3, 5, 9])) for _ in range(ctx.scale(40, 600))]
    r += [rnd(rng, rng.choice([5, 15, 30]), {2: 52, 3: 254, 4: 26, 5: 10, 1: 26}[a], rng.choice([1, 2, 3, 6]), a) for a in (1, 2, 3, 4, 5) for _ in range(ctx.scale(30, 600))]
    # every single letter, then every pair with one letter
    for a, n in ((0, 26), (2, 52), (3, 254)):
        one = [(c,) for c in range(2, n + 2)]
        for _ in range(ctx.scale(2, 8)):
            x = rng.randint(2, n + 1)
            two = one + [(x, c) for c in range(2, n + 2)]
            rng.shuffle(two)
            e = Ep().do("new", [0, a])
            for w in two: e.do("ins", [0], w)
            e.do("iter", [0]).do("hasall", [0], flat(two))
            for w in two[: len(two) // 2]: e.do("rem", [0], w)
            r.append(e.do("iter", [0]).do("hasall", [0], flat(two)))
    r += [many(rng, rng.choice([30, 80])) for _ in range(ctx.scale(300, 4000))]
    # many words: dense and sparse vocabularies, inserted, half removed, re-inserted
    for n, letters, ml, a in ctx.scale([(150, 26, 6, 0), (250, 3, 9, 0), (400, 26, 4, 0), (300, 40, 4, 2), (200, 200, 3, 3), (1500, 26, 3, 0)], [(150, 26, 6, 0), (400, 3, 9, 0), (900, 26, 5, 0), (600, 40, 4, 2), (500, 200, 3, 3), (3000, 26, 4, 0)] * 5):
        pool = sorted({tuple(rng.randint(2, letters + 1) for _ in range(rng.randint(1, ml))) for _ in range(n)}); rng.shuffle(pool)
        e = Ep().do("new", [0, a])
        for w in pool: e.do("ins", [0], w)
        e.do("iter", [0])
        for w in pool[::2]: e.do("rem", [0], w)
        e.do("iter", [0]).do("hasall", [0], flat(pool))
        e.do("copy", [1, 0])
        for w in pool[::3]: e.do("ins", [0], w)
        for w in pool[1::4]: e.do("ins", [1], w + (2,))
        r.append(e.do("iter", [0]).do("hasall", [0], flat(pool)).do("iter", [1]).do("hasall", [1], flat(pool)))
    # long words and long common prefixes
    for _ in range(ctx.scale(6, 40)):
        w = [rng.randint(2, 27) for _ in range(rng.choice([60, 200, 300, 700]))]
        pool = {tuple(w[:k]) for k in rng.sample(range(len(w)), 8)} | {tuple(w[:k] + [rng.randint(2, 27)] + w[k + 1:]) for k in rng.sample(range(len(w)), 6)}
        r.append(rnd(rng, 0, 26, 0, 0, 40, sorted(pool)))
    # thousands of nodes: pairs of words that part after a long common prefix
    for n, ml, letters in ctx.scale([(240, 45, 26), (150, 60, 2)], [(240, 45, 26), (400, 60, 26), (300, 60, 2), (500, 30, 3)] * 2):
        e = Ep().do("new", [0, 0]); pool = []
        for i in range(n):
            w = [rng.randint(2, 1 + letters) for _ in range(rng.randint(ml // 2, ml))]
            for z in ([2], [3], []): pool.append(tuple(w + z)); e.do("ins", [0], w + z)
        e.do("iter", [0])
        for i in range(0, len(pool), 40): e.do("hasall", [0], flat(pool[i:i + 40]))
        for w in rng.sample(pool, n): e.do("rem", [0], w)
        e.do("iter", [0])
        for i in range(0, len(pool), 40): e.do("hasall", [0], flat(pool[i:i + 40]))
        r.append(e)
    ctx.conform(Suite("trie", "trie.cpp", "Trace_TrieSet", eps + r))
