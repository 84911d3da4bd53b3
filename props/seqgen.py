from vlib.core import *
BIG = [2147483647, -2147483648, -1, 65536, -65536]

def history(rng, kind, steps, maxlen, vals, strings=False, illegal=0.0):
    """random history; sizes are tracked only to aim at interesting indexes"""
    e, seqs = Ep(), [[], [], []]
    val = lambda: rng.choice(vals)
    for _ in range(steps):
        s = rng.randrange(3); t = rng.randrange(3)
        v = seqs[s]; n = len(v)
        bad = rng.random() < illegal
        idx = lambda hi: rng.choice([0, max(0, hi - 1), rng.randrange(hi) if hi else 0])
        ops = ["push"] * 4 + ["insert"] * 3 + ["size", "iter", "citer", "riter", "criter", "stl", "conv", "cmp", "cmp", "copy", "assign",
               "all", "erase", "erase", "pop", "pop", "at", "cat", "first", "cfirst", "last", "clast", "atset", "itset", "firstset", "lastset",
               "pushself", "insself", "clear", "newn", "newi", "newstl", "assignstl", "new", "iteradd"]
        if kind == "vector":
            ops += ["get", "cget", "set", "getset", "print"] + ([] if strings else ["io", "read"])
        else:
            ops += ["pushfront"] * 3 + ["popfront"] * 2 + ["sort", "reverse", "merge"]
        op = rng.choice(ops)
        if n > maxlen and op in ("push", "insert", "pushfront", "pushself", "insself", "merge"): op = rng.choice(["clear", "erase", "pop"])
        if op in ("clear", "new") and rng.random() < .6: continue
        if bad:
            k = rng.choice(["at", "cat", "erase", "insert", "atset"] + (["get", "cget", "set", "getset"] if kind == "vector" else []) + ["empty"] * (n == 0) * 4)
            i = rng.choice([n, n + 1, -1, -2, n + rng.randint(1, 9), -n - 1] + BIG)
            if k == "insert" and i == n: i = n + 1
            if k == "empty":
                k = rng.choice(["pop", "first", "last", "cfirst", "clast", "firstset", "lastset"] + (["popfront"] if kind == "list" else []))
                e.do(k, [s, 7] if k.endswith("set") else [s], may=True)
            elif k in ("insert", "atset", "set", "getset"):
                if k != "insert" and 0 <= i < n: continue
                e.do(k, [s, i, val()], may=True)
            else: e.do(k, [s, i], may=True)
            continue
        if op in ("push", "pushfront"):
            x = val(); e.do(op, [s, x]); v.insert(n if op == "push" else 0, x)
        elif op == "insert":
            i = rng.choice([0, n, rng.randint(0, n)]); x = val(); e.do(op, [s, i, x]); v.insert(i, x)
        elif op in ("size", "iter", "citer", "riter", "criter", "stl", "conv", "print"): e.do(op, [s])
        elif op == "all": e.do(op, [s, 3])
        elif op == "cmp":
            if rng.random() < .3: e.do("assign", [t, s]); seqs[t] = v[:]
            e.do(op, [s, t])
        elif op in ("copy", "assign", "io"):
            if op == "copy" and s == t: continue
            e.do(op, [s, t]); seqs[s] = seqs[t][:]
        elif op == "merge":
            if sorted(v) != v: e.do("sort", [s]); v.sort()
            if sorted(seqs[t]) != seqs[t]: e.do("sort", [t]); seqs[t].sort()
            e.do(op, [s, t])
            if s != t: seqs[s] = sorted(v + seqs[t]); seqs[t] = []
        elif op in ("pop", "popfront"):
            if n: e.do(op, [s]); v.pop(-1 if op == "pop" else 0)
        elif op in ("first", "cfirst", "last", "clast"):
            if n: e.do(op, [s])
        elif op in ("firstset", "lastset"):
            if n: x = val(); e.do(op, [s, x]); v[0 if op == "firstset" else -1] = x
        elif op in ("at", "cat", "get", "cget"):
            if n: e.do(op, [s, idx(n)])
        elif op == "erase":
            if n: i = idx(n); e.do(op, [s, i]); v.pop(i)
        elif op in ("atset", "itset", "set", "getset"):
            if n: i = idx(n); x = val(); e.do(op, [s, i, x]); v[i] = x
        elif op == "pushself":
            if n: i = idx(n); e.do(op, [s, i]); v.append(v[i])
        elif op == "insself":
            if n: i = rng.randint(0, n); j = idx(n); e.do(op, [s, i, j]); v.insert(i, v[j])
        elif op in ("clear", "new"): e.do(op, [s]); seqs[s] = []
        elif op == "newn": k = rng.randint(0, 5); x = val(); e.do(op, [s, k, x]); seqs[s] = [x] * k
        elif op == "newd": k = rng.randint(0, 5); e.do(op, [s, k]); seqs[s] = [0] * k
        elif op in ("newi", "newstl", "assignstl"):
            w = [val() for _ in range(rng.randint(0, 6))]; e.do(op, [s], w); seqs[s] = w
        elif op == "iteradd":
            if all(abs(x) < 1000000 for x in v) and not strings: e.do(op, [s, 1]); seqs[s] = [x + 1 for x in v]
        elif op == "sort": e.do(op, [s]); v.sort()
        elif op == "reverse": e.do(op, [s]); v.reverse()
        elif op == "read":
            w = [rng.choice([0, 1, -1, 10, -20, 123456789, rng.randint(-999, 999)]) for _ in range(rng.randint(0, 5))]
            sp = lambda: rng.choice(["", "", " ", "\n", " \t "])
            t = sp() + "{" + sp() + (sp() + "," + sp()).join(str(x) for x in w) + sp() + "}" + rng.choice(["", " 7", "}"])
            e.do(op, [s], t.encode()); seqs[s] = w
    for s in range(3): e.do("iter", [s])
    return e
