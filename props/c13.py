import base64
from vlib.core import *
from props.c10 import batch

def run(ctx):
    cfg = "MC_Codec_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_Codec", cfg, emit=True))
    rng = ctx.rng; ops = []
    strs = [bytes(t["s"]) for t in em[cfg]] + [b""]
    strs += [bytes([c]) for c in range(256)] + [bytes([97, c]) for c in range(256)] + [bytes([c, 0, c]) for c in range(256)]
    for _ in range(ctx.scale(1500, 20000)):
        n = rng.choice([1, 2, 3, 5, 8, 20, 60, rng.randint(0, 100)])
        al = rng.choice([range(256), [0], [0, 1], range(128, 256), range(32, 127), [37, 43, 32, 48, 65, 70, 102]])
        strs.append(bytes(rng.choice(list(al)) for _ in range(n)))
    strs += [bytes(rng.randrange(256) for _ in range(n)) for n in (127, 128, 129, 255, 256, 257, 600, 1000, 1024, 2047, 2500, 2501)]
    for s in strs:
        ops += [("b64r", [], s), ("urlr", [], s), ("urle", [], s)]
        e = base64.b64encode(s)
        n = len(e.rstrip(b"="))
        ops.append(("b64e", [-1], s))
        if rng.random() < .3: ops.append(("b64e", [rng.choice([-2, -3, -100, 0, n - 1, n, n + 1, n + 2, n + 7, len(e)])], s))
        if rng.random() < .5: ops.append(("b64d", [], rng.choice([e, e.rstrip(b"="), e + b"=", e.rstrip(b"=") + b"====="])))
        if rng.random() < .5: ops.append(("urld", [], s))          # arbitrary text, mostly well-formed
    for _ in range(ctx.scale(1500, 20000)):
        t = bytearray(rng.choice([b"a%4", b"%", b"%%", b"%2", b"%zz", b"a%41", b"%4g", b"%e4%BD%a0", b"+a+", b"%00", b"%fF", b"%2B%25"]) * rng.choice([1, 2, 5, 6, 16]))
        if rng.random() < .5: t = t[:rng.randint(0, len(t))]
        ops.append(("urld", [], t))
        ops.append(("b64d", [], bytes(rng.choice(b"ABZaz09+/=== \n-_\x00\xff!") for _ in range(rng.choice([1, 2, 3, 4, 5, 8, 15, 16, 17])))))
    for n in ctx.scale((8200, 33000, 65600), (8200, 33000, 65600, 132000)):       # very long inputs
        s = bytes(rng.randrange(256) for _ in range(n)); u = bytes(rng.choice(b"azAZ09-_.~") for _ in range(n)); w = bytes(rng.choice(b"%+ /?\x00\xff\n") for _ in range(n))
        e = base64.b64encode(s)
        ops += [("b64e", [-1], s), ("b64e", [len(e) + 3], s), ("b64r", [], s), ("b64d", [], e), ("urlr", [], s), ("urlr", [], w), ("urle", [], u), ("urle", [], w), ("urld", [], u.replace(b"~", b"+"))]
    rng.shuffle(ops)
    ctx.conform(Suite("codec", "codec.cpp", "Trace_Codec", batch(ops), weight=lambda e: sum(1 + len(o[2]) / 100 for o in e)))
