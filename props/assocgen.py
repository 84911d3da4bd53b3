from vlib.core import *

def history(rng, kind, steps, keys, illegal=0.0):
    pairs = kind in ("map", "multimap")
    e, st = Ep(), [[], [], []]          # only the key lists, to aim at present/absent keys
    key = lambda: rng.choice(keys)
    val = lambda: rng.randint(-9, 9)
    def lit():
        n = rng.randint(0, 6)
        ks = [key() for _ in range(n)]
        return ks, [x for k in ks for x in ((k, val()) if pairs else (k,))]
    for _ in range(steps):
        s, t = rng.randrange(3), rng.randrange(3)
        ks = st[s]
        k = rng.choice(ks) if ks and rng.random() < .5 else key()
        x = rng.random()
        if rng.random() < illegal and kind in ("map", "multiset"):
            k = key()
            if k in ks: continue
            if kind == "map":
                op = rng.choice(["get", "cget", "getset"]); e.do(op, [s, k] + ([1] if op == "getset" else []), may=True)
            else: e.do("erase", [s, k], may=True)
        elif x < .35:
            if kind == "map":
                op = rng.choice(["set", "atset", "at"]); e.do(op, [s, k] + ([] if op == "at" else [val()])); ks.append(k)
            elif not pairs: e.do("insert", [s, k]); ks.append(k)
            else: w, b = lit(); e.do(rng.choice(["newi", "newstl"]), [s], b); st[s] = w
        elif x < .45:
            if kind == "multiset" and k not in ks: continue
            e.do("erase", [s, k]); st[s] = [y for y in ks if y != k]
        elif x < .6:
            ops = {"map": ["contains", "get", "cget", "getset"], "set": ["contains"], "multiset": ["contains", "count"], "multimap": ["count", "find"]}[kind]
            op = rng.choice(ops)
            if op in ("get", "cget", "getset") and k not in ks: continue
            e.do(op, [s, k] + ([val()] if op == "getset" else []))
        elif x < .78: e.do(rng.choice(["size", "iter", "citer", "riter", "criter", "stl", "conv"]), [s])
        elif x < .86:
            if rng.random() < .4: e.do("assign", [t, s]); st[t] = ks[:]
            e.do("cmp", [s, t])
        elif x < .92:
            op = rng.choice(["copy", "assign"])
            if op == "assign" or s != t: e.do(op, [s, t]); st[s] = st[t][:]
        elif x < .95: w, b = lit(); e.do(rng.choice(["newi", "newstl"]), [s], b); st[s] = w
        elif x < .97:
            if pairs: e.do("iteradd", [s, 1])
        elif x < .98: e.do(rng.choice(["clear", "new"]), [s]); st[s] = []
    for s in range(3): e.do("iter", [s]); e.do("size", [s])
    return e
