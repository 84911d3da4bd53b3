from vlib.core import *

def history(rng, kind, steps, vals, illegal=0.0, grow=.5):
    e, n = Ep(), [0, 0, 0]
    ends = ["last", "clast", "lastset"] + (["first", "cfirst", "firstset"] if kind == "queue" else [])
    for _ in range(steps):
        s, t = rng.randrange(3), rng.randrange(3)
        x = rng.random()
        if n[s] == 0 and rng.random() < illegal:
            k = rng.choice(["pop", "pop"] + ends)
            e.do(k, [s, 1] if k.endswith("set") else [s], may=True)
        elif x < grow * .6: e.do("push", [s, rng.choice(vals)]); n[s] += 1
        elif x < .55:
            if n[s]: e.do("pop", [s]); n[s] -= 1
        elif x < .7:
            if n[s]:
                k = rng.choice(ends); e.do(k, [s, rng.choice(vals)] if k.endswith("set") else [s])
        elif x < .76: e.do(rng.choice(["stl", "conv"]), [s])
        elif x < .82: e.do("size", [s])
        elif x < .87:
            if rng.random() < .4: e.do("assign", [t, s]); n[t] = n[s]
            e.do("cmp", [s, t])
        elif x < .91:
            k = rng.choice(["copy", "assign"])
            if k == "assign" or s != t: e.do(k, [s, t]); n[s] = n[t]
        elif x < .93: k = [rng.choice(vals) for _ in range(rng.randint(0, 6))]; e.do("newstl", [s], k); n[s] = len(k)
        elif x < .96:
            if n[s]: e.do("pushself", [s]); n[s] += 1
        elif x < .975: k = rng.choice(["clear", "new", "drain"]); e.do(k, [s]); n[s] = 0
    for s in range(3): e.do("cmp", [s, (s + 1) % 3]); e.do("drain", [s]); e.do("size", [s])
    return e
