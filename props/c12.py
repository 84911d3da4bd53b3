from vlib.core import *
from props import jsongen as G
from props.c10 import batch

FIXED = [b"", b" ", b"nul", b"null", b"nulll", b"tru", b"true", b"fals", b"false", b"[", b"]", b"{", b"}", b"[1", b"[1,", b"[1,]", b"[,1]", b"[1 2]", b"{\"a\"", b"{\"a\":", b"{\"a\":1",
         b"{\"a\":1,", b"{\"a\":1,}", b"{a:1}", b"{1:1}", b"{null:1}", b"{\"a\" 1}", b"{\"a\":1 \"b\":2}", b"\"", b"\"a", b"\"\\", b"\"\\\"", b"\"\\u", b"\"\\u1", b"\"\\u12", b"\"\\u123", b"\"\\u1234",
         b"\"\\u12g4\"", b"\"\\u1234\"", b"1", b"-1", b"0", b"-0", b"1e5", b"1E5", b"1e+5", b"1e-5", b"1.5e3", b"1.5e+10", b"1.5e-10", b"[1e5]", b"[1e5,2]", b"[1.5e+2 , 3]", b"{\"a\":1e2}",
         b"{\"a\":2E-2,\"b\":1e0}", b"1e", b"1e+", b"1e-", b"[1e]", b"[1e+]", b"[1e,2]", b"1ex", b"1e5x", b"1x", b"1.", b".5", b"-", b"+1", b"01", b"1-1", b"1.2.3", b"--1", b"12345678901", b"2147483648", b"-2147483648", b"2147483647",
         b"[[[[]]]]", b"[[[[]]]", b"{\"a\":{\"b\":[1,{\"c\":null}]}}", b" \n\t[ \r1 ,\n2 ]  ", b"[1] ", b"[1]x", b"\"a\" ", b"{\"a\":1,\"a\":2}", b"{\"\":1}", b"[\"\\\\\",\"\\\"\"]", b"[true,false,null]",
         b"[true false]", b"[truefalse]", b"[tru]", b"[nulll]", b"0.1", b"0.10", b"100", b"1e10", b"10e10", b"123.456e2", b"-0.0", b"-1.5e-3", b"[1.0,-2.5e0]", b"{\"k\":-7}", b"{\"k\":-7 }", b"[0]", b"[0 ]", b"1 ", b"1.5 ", b"1e3 ", b" 1e3", b"[1e3 ]", b"[ 1e3\n]"]

def run(ctx):
    cfg = "MC_JsonText_%s.cfg" % ctx.tier
    em = ctx.model(MC("MC_JsonText", cfg, emit=True))
    rng = ctx.rng
    ops = [("load", [], t["s"], (), t["k"] != "val") for t in em[cfg]]
    ops += [("load", [], t, (), True) for t in FIXED]
    docs = []
    for _ in range(ctx.scale(5000, 60000)):
        t = G.ws(rng) + G.text(rng, rng.choice([0, 1, 2, 3])) + G.ws(rng)
        if len(t) > 400: continue
        docs.append(t)
        ops.append(("load", [], t))
    for _ in range(ctx.scale(4000, 60000)):
        t = G.mutate(rng, rng.choice(docs))
        ops.append(("load", [], t, (), True))
    small = [t for t in docs if 4 <= len(t) <= 60]
    for t in rng.sample(small, min(len(small), ctx.scale(60, 600))):      # every truncation
        for i in range(len(t)): ops.append(("load", [], t[:i], (), True))
    for pre, post in [(b"", b""), (b"1", b""), (b"-2.5", b""), (b"1e5", b""), (b"0", b" "), (b"[1", b"]"), (b"[1", b"2]"), (b"[1e2", b",3]"), (b'{"a":1', b"}"), (b'{"a":-3.5', b',"b":1}'), (b"[", b"]"), (b"[", b"1]"), (b"[1,", b"2]"), (b"{", b"}"), (b"{", b'"a":1}'), (b'{"a"', b":1}"), (b'{"a"', b"1}"), (b'{"a":', b"1}"), (b'{"a":1,', b'"b":2}'), (b'"', b'"'), (b'"\\', b'"'), (b'"\\u00', b'0"'), (b"[true", b"]"), (b"[null", b"1]"), (b'["s"', b"]"), (b"[[]", b"]"), (b"tru", b""), (b"-", b""), (b"1.", b""), (b"1e", b""), (b"1e+", b"")]:
        for c in range(1, 256):                    # every byte in every position of the grammar
            if ctx.quick and c > 127 and c % 16 != 1: continue
            ops.append(("load", [], pre + bytes([c]) + post, (), True))
    for d in (50, 200): ops += [("load", [], b"[" * d + b"]" * d), ("load", [], b"[" * d, (), True), ("load", [], b"{\"a\":" * d + b"1" + b"}" * d), ("load", [], b"[" * d + b"]" * (d - 1), (), True)]
    for n in (127, 128, 255, 256, 300, 1000, 2500):
        s = b"".join(rng.choice([b"\\n", b"\\\"", b"\\\\", b"\\u00e9", b" ", b"\xe4"]) if rng.random() < .2 else b"q" for _ in range(n))
        a = [str(i).encode() if i % 3 else rng.choice([b"null", b"true", b"\"s\"", b"[]", b"{}", b"-1.5"]) for i in range(n)]
        o = b",".join(b'"k%d" : %s' % (i, x) for i, x in enumerate(a[:80]))
        for t in (b'"' + s + b'"', b'{"' + s + b'":0}', b"[" + b",".join(a) + b"]", b"{" + o + b"}", b" " * n + b"[1" + b"\n" * n + b"]" + b"\t" * n, b"[0." + b"0" * min(n, 300) + b"1]", b"1" + b"0" * min(n, 20) + b".5"):
            ops.append(("load", [], t, (), False))
        for t in (b'"' + s, b'{"' + s + b'"', b"[" + b",".join(a), b"[" + b",".join(a) + b",]", b"{" + o, b"{" + o + b",}", b"[" + b" ".join(a) + b"]"):
            ops.append(("load", [], t, (), True))
    for n in ctx.scale((1, 300, 33000, 65600), (1, 300, 33000, 65600, 99000)):       # large documents given by a formula
        ops += [("rep", [k, n], (), (), k > 4) for k in (0, 2, 3, 5, 6)]
        if n < 70000: ops.append(("rep", [1, min(n, ctx.scale(20000, 66000))]))
    ops += [("rep", [k, n], (), (), k > 4) for k in (4, 7) for n in (300, 600, 1100)]
    rng.shuffle(ops)
    ctx.conform(Suite("load", "json.cpp", "Trace_JsonText", batch(ops), weight=lambda e: sum(1 + (o[1][1] * (8 if o[1][0] == 1 else 1) / 100 if o[0] == "rep" else len(o[2]) / 100) for o in e)))
