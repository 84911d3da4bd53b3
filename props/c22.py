from vlib.core import *
from props.c10 import batch

def text(rng, n, alpha): return [rng.choice(alpha) for _ in range(n)]
def periodic(rng, n, alpha):
    u = text(rng, rng.randint(1, 4), alpha); s = (u * (n + 1))[:n]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        if s: s[rng.randrange(len(s))] = rng.choice(alpha)
    return s
def fib(n):
    a, b = [98], [97]
    while len(b) < n: a, b = b, b + a
    return b[:n]

def run(ctx):
    t = ctx.tier; cs = ["MC_Strings_%s.cfg" % t] + ([] if ctx.quick else ["MC_Strings_thorough3.cfg"])
    ks = ["KMP_%s.cfg" % t] + ([] if ctx.quick else ["KMP_thorough3.cfg"])
    em = ctx.model(*([MC("MC_Strings", c, emit=True) for c in cs] + [MC("KMP", k) for k in ks]))
    rng = ctx.rng; ops = []
    def kmp(base, pat, st): ops.append(("kmp", [st, rng.randint(0, 1)], [len(base)] + base + pat))
    def edit(s, u): ops.append(("edit", [], [len(s)] + s + u))
    AL = [[97, 98], [97], [97, 98, 99], [0, 255], [97, 0], list(range(256)), [128, 200, 255, 127]]
    for c in cs:
        e = em[c]
        if ctx.quick: rng.shuffle(e)
        for x in e[:ctx.scale(961, 10**9)]:
            al = rng.choice([[97, 98, 99], [0, 255, 1], [200, 72, 40]]); s, u = [al[i - 1] for i in x["s"]], [al[i - 1] for i in x["t"]]
            edit(s, u)
            for st in (range(len(s) + 2) if not ctx.quick else [0, rng.randint(0, len(s) + 1)]): kmp(s, u, st)
    for _ in range(ctx.scale(2500, 40000)):
        al = rng.choice(AL); n = rng.choice([5, 12, 30, 60])
        base = rng.choice([text, periodic, periodic])(rng, n, al)
        k = rng.random(); m = rng.randint(0, min(n, rng.choice([3, 8, 20])))
        pat = base[(p := rng.randint(0, n - m)):p + m] if k < .5 else rng.choice([text, periodic])(rng, m, al)
        if k > .8 and pat: pat[-1] = rng.choice(al)
        kmp(base, pat, rng.choice([0, 0, rng.randint(0, n), n, n + 1, -rng.randint(1, 7)]))
    for n in (13, 21, 34, 55):
        f = fib(n)
        for m in range(1, n + 1, 3): kmp(fib(89), f[:m], rng.randint(0, 10)); kmp(fib(89), f[:m] + [99], 0); kmp(fib(89), f[-m:], rng.randint(0, 60))
    for n in range(1, 30): kmp([97] * n + [98], [97] * (n // 2) + [98], 0); kmp([97] * n, [97] * n, 0); kmp([97] * n, [97] * (n + 1), 0); kmp([97, 98] * n, [98, 97] * (n - 1) + [98], 0)
    for _ in range(ctx.scale(500, 6000)):
        al = rng.choice(AL); s = rng.choice([text, periodic])(rng, rng.randint(0, ctx.scale(18, 40)), al); u = list(s)
        for _ in range(rng.choice([0, 1, 2, 3, 8])):
            i = rng.randint(0, len(u)); w = rng.random()
            if w < .33: u.insert(i, rng.choice(al))
            elif u and w < .66: del u[i - 1]
            elif u: u[i - 1] = rng.choice(al)
        if rng.random() < .3: u = text(rng, rng.randint(0, 18), al)
        edit(s, u)
        if rng.random() < .2: edit(u, s); edit(s, s); edit(s, []); edit([], s)
        if rng.random() < .1: edit(s, s[::-1]); edit(s + u, u + s) if len(s + u) < 30 else None
    edit(text(rng, 120, AL[2]), text(rng, 90, AL[2])); edit([97] * 100, [97] * 70); edit(list(range(100)), list(range(1, 101)))
    for n in ctx.scale((127, 128, 129, 255, 256, 257, 400, 1000, 3000), (127, 128, 129, 255, 256, 257, 400, 1000, 3000, 8000)):       # long texts and patterns
        for _ in range(ctx.scale(3, 20)):
            al = rng.choice(AL); base = rng.choice([text, periodic])(rng, n, al); m = rng.choice([1, 10, 100, n // 2, n - 1, n]); p = rng.randint(0, n - m)
            kmp(base, base[p:p + m], rng.choice([0, 0, p, max(0, p - 3), p + 1])); kmp(base, base[p:p + m] + [rng.choice(al)], 0); kmp(base[:n - 1] + [66], [66], 0)
        kmp([97] * n, [97] * (n // 2) + [98], 0); kmp([97] * n + [98], [97] * (n // 2) + [98], 0); kmp([97, 98] * n, [98, 97] * (n // 2) + [99], 0); kmp([97] * n, [97] * 9, n - 9)
    for n in ctx.scale((127, 128, 129, 200, 260), (127, 128, 129, 255, 256, 257, 400)):
        s = text(rng, n, AL[2]); u = s[:]; del u[rng.randrange(n)]; u.insert(rng.randrange(n), 65); u[rng.randrange(n)] = 66
        edit(s, u); edit(u, s[:5]); edit(s[:5], u); edit(s, []); edit([], s); edit([97] * n, [98] * n)
        for m in (1, 7, 25): edit(s, text(rng, m, AL[2])); edit(text(rng, m, rng.choice(AL)), s); edit(s, s[:m] + [65] + s[-m:])
        if n < 150: edit(s, text(rng, n + 9, AL[2]))
    for n in ctx.scale((33000, 66000), (33000, 66000, 140000)):                  # very long texts and patterns, given by formulas
        for p, m, q in [(n - 1, 0, 0), (n - 1, n - 1, 0), (n - 1, n - 300, 0), (n // 2, n // 2 - 5, n // 2 - 5), (n - 200, 100, 100), (100, 100, n - 101), (100, 100, n - 100), (n - 1, n, 0), (5, 4, -1), (5, n - 6, -1), (5, n - 5, -1), (0, n - 1, -1), (n - 1, n - 1, -1), (n - 7, 6, 6), (n - 7, 6, 7)]:
            for st in (0, 1, 7, n - 300, n - 1, n, n + 1, 32768, 65536, 65540): ops.append(("kmpx", [st, n, p, m, q]))
    for n in (255, 256, 300, 511, 512, 520, 700, 1000) + ctx.scale((), (3000, 5000)):
        for k in range(4): ops += [("editx", [k, n, m]) for m in (0, 1, 200, n)]
        ops += [("editx", [k, m, n]) for k in (0, 1, 3) for m in (0, 7, 200)]
    s = text(rng, 450, AL[2]); ops.append(("edit", [], [450] + s + s[1:] + s[:1])); edit(text(rng, 420, AL[2]), text(rng, 420, AL[2]))
    rng.shuffle(ops)
    ctx.conform(Suite("strings", "strings.cpp", "Trace_Strings", batch(ops), weight=lambda e: sum((1 + o[2][0] * (len(o[2]) - o[2][0]) / 100 if o[0] == "edit" else 2 if o[0][-1] == "x" else 1 + o[2][0] / 30) for o in e)))
