"""Random JSON values and texts. Values are in the flat encoding of JsonVal.tla."""
STR = [b"", b"a", b"b", b"key", b"a\"b", b"\\", b"\"", b"\\\"", b"line\nbreak", b"tab\t", b"\b\f\r", b"/", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\\u0041",
       b"\\n", b"{\"x\":1}", b"[1,2]", b"null", b"true", b"1.5", b" ", b":", b",", b"'", b"\x7f", b"\xff", b"\x80\x81", b"end\\"]

def num9(digits, exp):
    """(m, e) with nine significant digits of digits * 10^exp"""
    d = digits.lstrip("0").rstrip("0")
    if not d: return None
    exp += len(digits) - len(digits.rstrip("0")) if digits.rstrip("0") else 0
    return int(d + "0" * (9 - len(d))), exp - (9 - len(d))

def flt(rng):
    k = rng.random()
    if k < .1: return [3, 0, 0, 0]
    s = rng.choice([1, -1])
    if k < .5:       # at most six decimals
        n = rng.choice([rng.randint(1, 99), rng.randint(1, 999999999)]); dec = rng.randint(0, 6)
        m, e = num9(str(n), -dec)
    elif k < .6: m, e = num9(str(rng.choice([5, 25, 125, 375, 225, 1625])), -rng.choice([1, 2, 3]))      # often a float
    elif k < .7:
        m, e = num9(str(rng.randint(1, 999999999)), rng.randint(0, 6 - 0) - 0)
        if e > 6: m, e = num9(str(rng.randint(1, 99)), 0)
    else:            # more than six decimals: the dump rounds (no exact ties)
        dec = rng.randint(7, 12); n = rng.randint(1, 999999999)
        if n % 10 in (0, 5): n += 1
        n = min(n, 999999998)
        m, e = num9(str(n), -dec)
    return [3, s, m, e]

def rstr(rng, nul=False):
    k = rng.random()
    if k < .6: return list(rng.choice(STR))
    n = rng.choice([1, 2, 5, 20])
    lo = 0 if nul else 1
    return [rng.choice([34, 92, 10, 47, rng.randint(32, 126), rng.randint(lo, 255), 97]) for _ in range(n)]

def leaf(rng):
    k = rng.randrange(6)
    if k == 0: return [0]
    if k == 1: return [1, rng.randint(0, 1)]
    if k == 2: return [2, rng.choice([0, 1, -1, 9, 10, -10, 2147483647, -2147483648, -2147483647, rng.choice([127, 128, 130, 202, 250, 255, 256, 32768, 65535, 65536, -128, -129, -32769]), rng.randint(-2**31, 2**31 - 1), rng.randint(-999, 999)])]
    if k == 3: return flt(rng)
    s = rstr(rng); return [4, len(s)] + s

def value(rng, depth):
    k = rng.random()
    if depth == 0 or k < .25: return leaf(rng)
    if k < .6:
        n = rng.choice([0, 1, 2, 3, 5]); r = [5, n]
        for _ in range(n): r += value(rng, depth - 1)
        return r
    ks = {tuple(rstr(rng)) for _ in range(rng.choice([0, 1, 2, 3, 4]))}
    r = [6, len(ks)]
    for key in sorted(ks): r += [len(key)] + list(key) + value(rng, depth - 1)
    return r

def ws(rng):
    return "".join(rng.choice(" \n\t\r") for _ in range(rng.choice([0, 0, 0, 1, 2]))).encode()

ESC = {34: b'\\"', 92: b"\\\\", 47: b"\\/", 8: b"\\b", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t"}
def strtext(rng):
    out = b'"'
    for c in rstr(rng):
        if c in (34, 92) or (c in ESC and rng.random() < .8): out += ESC[c]
        elif c == 0: out += b"z"
        else: out += bytes([c])
    if rng.random() < .15: out += b"\\u" + ("%04x" % rng.randrange(65536)).encode()
    return out + b'"'

def numtext(rng):
    t = rng.choice(["", "", "-"]) + rng.choice(["0", str(rng.randint(1, 9)), str(rng.randint(10, 9999)), "2147483647", "100", "120", "1000000"])
    k = rng.random()
    if k < .4: t += "." + rng.choice(["0", "5", "25", "000", "500", "0625", "001", str(rng.randint(0, 999))])
    if k > .3 and k < .75: t += rng.choice("eE") + rng.choice(["", "+", "-"]) + rng.choice(["0", "1", "2", "5", "9", "10", "12", "20", "25", "00", "07", "100", "123"])
    return t.encode()

def text(rng, depth):
    k = rng.random()
    if depth == 0 or k < .3:
        k = rng.randrange(7)
        return rng.choice([b"null", b"true", b"false"]) if k < 2 else strtext(rng) if k < 4 else numtext(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5])
    if k < .65:
        return b"[" + ws(rng) + (ws(rng) + b"," + ws(rng)).join(text(rng, depth - 1) for _ in range(n)) + ws(rng) + b"]"
    return b"{" + ws(rng) + (ws(rng) + b"," + ws(rng)).join(strtext(rng) + ws(rng) + b":" + ws(rng) + text(rng, depth - 1) for _ in range(n)) + ws(rng) + b"}"

def mutate(rng, t):
    t = bytearray(t)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.randrange(5); i = rng.randint(0, len(t))
        if k == 0: t = t[:i]
        elif k == 1 and t: del t[min(i, len(t) - 1)]
        elif k == 2: t[i:i] = rng.choice([b'"', b"\\", b",", b":", b"]", b"}", b"[", b"{", b"1", b"e", b".", b"-", b"t", b" ", b"\\u12", b"nul"])
        elif k == 3 and t: t[min(i, len(t) - 1)] = rng.choice(b'",:[]{}\\0e.- tnfux/')
        elif t: j = rng.randint(0, len(t)); t = t[:i] + t[j:j + 4] + t[i:]
    return bytes(t)
