------------------------------ MODULE IntMath ------------------------------
(***************************************************************************)
(* Property C17: gcd, lcm, factorial, permutation, binomial, binaryPow and    *)
(* genericBinaryPow as exact integer functions.  Integers of any size are     *)
(* BigDec records (Base 10^4); the wire format is sign, count, limbs.         *)
(* a = <<type, ...>>: the integer type of the call.                          *)
(***************************************************************************)
EXTENDS BigDec, TLC
VARIABLE last
vars == <<last>>
Init == last = Nothing
Start == last' = Nothing
(* ---- integers of any size -------------------------------------------------*)
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
Int2(n) == IF n < 0 THEN Mk(-1, Limbs(0 - n)) ELSE Mk(1, Limbs(n))       \* |n| < 2^31
Wire(x) == <<x.s, Len(x.d)>> \o x.d
At(b, i) == [s |-> b[i], d |-> SubSeq(b, i + 2, i + 1 + b[i + 1])]          \* the number whose encoding starts at i
Skip(b, i) == i + 2 + b[i + 1]
X(b) == At(b, 1)
Y(b) == At(b, Skip(b, 1))
Leq(x, y) == BCmp(x, y) <= 0
(* largest digit q in lo..hi with q * y <= r *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, y, lo, hi) == IF lo = hi THEN lo
   ELSE LET m == (lo + hi + 1) \div 2 IN IF Leq(BMul(Int2(m), y), r) THEN QDigit(r, y, m, hi) ELSE QDigit(r, y, lo, m - 1)
RECURSIVE ModAt(_, _, _, _)
ModAt(x, y, i, r) == IF i = 0 THEN r
   ELSE LET rr == TLCEval(Mk(1, <<x.d[i]>> \o r.d))
            q == QDigit(rr, y, 0, Base - 1)
        IN ModAt(x, y, i - 1, TLCEval(BSub(rr, BMul(Int2(q), y))))
BMod(x, y) == IF BCmp(x, y) < 0 THEN x ELSE ModAt(x, y, Len(x.d), Zero)       \* x >= 0, y > 0
RECURSIVE BGcd(_, _)
BGcd(x, y) == IF y.s = 0 THEN x ELSE BGcd(y, TLCEval(BMod(x, y)))
RECURSIVE DivAt(_, _, _, _, _)
DivAt(x, y, i, r, q) == IF i = 0 THEN Mk(1, q)
   ELSE LET rr == TLCEval(Mk(1, <<x.d[i]>> \o r.d))
            k == QDigit(rr, y, 0, Base - 1)
        IN DivAt(x, y, i - 1, TLCEval(BSub(rr, BMul(Int2(k), y))), <<k>> \o q)
BDiv(x, y) == DivAt(x, y, Len(x.d), Zero, <<>>)                               \* x >= 0, y > 0
BLcm(x, y) == IF x.s = 0 \/ y.s = 0 THEN Zero ELSE BMul(BDiv(x, BGcd(x, y)), y)
RECURSIVE Falling(_, _)
Falling(n, r) == IF r = 0 THEN One ELSE BMul(Int2(n), Falling(n - 1, r - 1))    \* n (n-1) ... (n-r+1)
Fact(n) == Falling(n, n)
(* Pascal, row by row *)
RECURSIVE Row(_, _)
Row(n, r) == IF n = 0 THEN [j \in 0..r |-> IF j = 0 THEN One ELSE Zero]
             ELSE LET p == Row(n - 1, r) IN TLCEval([j \in 0..r |-> IF j = 0 THEN One ELSE BAdd(p[j], p[j - 1])])
(* for large n: C(n, r) = product of (n-r+i)/i, exact at every step *)
RECURSIVE Choose(_, _)
Choose(n, r) == IF r = 0 THEN One ELSE BDiv(BMul(Choose(n - 1, r - 1), Int2(n)), Int2(r))
RECURSIVE BPow(_, _)
BPow(x, e) == IF e = 0 THEN One ELSE LET h == TLCEval(BPow(BMul(x, x), e \div 2)) IN IF e % 2 = 1 THEN BMul(x, h) ELSE h
Unit(x) == x.s = 0 \/ x.d = <<1>>
Pow(x, e) == IF e = 0 THEN One ELSE IF Unit(x) THEN (IF x.s < 0 /\ e % 2 = 0 THEN One ELSE x) ELSE BPow(x, e)
(* does x^e have magnitude at most lim?  decided without computing a huge power *)
RECURSIVE PowFits(_, _, _, _)
PowFits(x, e, acc, lim) == IF ~Leq(BAbs(acc), lim) THEN FALSE ELSE IF e = 0 THEN TRUE ELSE PowFits(x, e - 1, TLCEval(BMul(acc, x)), lim)
InPow(x, e, lim) == IF Unit(x) THEN TRUE ELSE IF e > 70 THEN FALSE ELSE IF PowFits(x, e, One, lim) THEN TRUE
                    ELSE x.s < 0 /\ e % 2 = 1 /\ PowFits(x, e, One, BAdd(lim, One)) /\ BPow(x, e) = BNeg(BAdd(lim, One))    \* the lowest number of the type
(* ---- machine types: 0 int, 1 int64, 2 (int, int64), 3 (int64, int), 4 unsigned, 5 short, 6 double *)
I32 == Int2(2147483647)
I64 == Mk(1, <<5807, 5477, 3720, 3372, 922>>)                                 \* 2^63 - 1
U32 == BAdd(BMul(I32, Int2(2)), One)
D53 == Mk(1, <<992, 5474, 1992, 9007>>)                                       \* 2^53
Lim(t) == CASE t \in {0, 5} -> I32 [] t = 4 -> U32 [] t = 6 -> D53 [] OTHER -> I64
S16 == Int2(32767)
Own(t) == IF t = 5 THEN S16 ELSE Lim(t)                                       \* the function's own integer type
Ok(op, a, b, r) == last' = Ev(op, a, b, <<>>, "ok", r)
Err(op, a, b) == last' = Ev(op, a, b, <<>>, "error", <<>>)
Fit(x, l) == Leq(BAbs(x), l)
FracPow(b, e) == <<BPow(Int2(b[1]), e), BPow(Int2(b[2]), e)>>
(* 2x2 matrices of any size integers *)
MMul(p, q) == <<BAdd(BMul(p[1], q[1]), BMul(p[2], q[3])), BAdd(BMul(p[1], q[2]), BMul(p[2], q[4])),
                BAdd(BMul(p[3], q[1]), BMul(p[4], q[3])), BAdd(BMul(p[3], q[2]), BMul(p[4], q[4]))>>
RECURSIVE MPow(_, _)
MPow(m, e) == IF e = 1 THEN m ELSE TLCEval(MMul(m, MPow(m, e - 1)))
M4(b) == [i \in 1..4 |-> Int2(b[i])]
Wire4(m) == Wire(m[1]) \o Wire(m[2]) \o Wire(m[3]) \o Wire(m[4])
(* the entries of |m|^e bound those of every partial product *)
MFit(m, e) == LET p == MPow([i \in 1..4 |-> BAbs(m[i])], e) IN \A i \in 1..4 : Fit(p[i], I64)
(* exponents beyond 32 bits: a[2] + 2^32 or a[2] + 2^62 (a[3] = 4, 5), both even and 4 modulo 12; they are used on *)
(* bases whose powers repeat: 0, 1, -1 and matrices whose twelfth power is the unit *)
Vast(a) == Len(a) > 2 /\ a[3] > 3
Rotation(m) == MPow(m, 12) = M4(<<1, 0, 0, 1>>)
Do(op, a, b) ==
  CASE op = "gcd"  -> LET g == BGcd(BAbs(X(b)), BAbs(Y(b))) IN
                      Fit(X(b), Lim(a[1])) /\ Fit(Y(b), Lim(a[1])) /\ Ok(op, a, b, Wire(g))           \* magnitude of the result
    [] op = "lcm"  -> /\ ~(X(b).s = 0 /\ Y(b).s = 0) /\ Fit(BMul(X(b), Y(b)), Lim(a[1]))
                      /\ Fit(BLcm(BAbs(X(b)), BAbs(Y(b))), Own(a[1]))
                      /\ Ok(op, a, b, Wire(BLcm(BAbs(X(b)), BAbs(Y(b)))))
    [] op = "fact" -> IF a[2] < 0 THEN Err(op, a, b) ELSE Fit(Fact(a[2]), Own(a[1])) /\ Ok(op, a, b, Wire(Fact(a[2])))
    [] op = "perm" -> IF a[2] < 0 \/ a[3] < 0 \/ a[3] > a[2] THEN Err(op, a, b)
                      ELSE Fit(Int2(a[2]), Own(a[1])) /\ Fit(Falling(a[2], a[3]), Own(a[1])) /\ Ok(op, a, b, Wire(Falling(a[2], a[3])))
    [] op = "binom" -> IF a[2] < 0 \/ a[3] < 0 \/ a[3] > a[2] THEN Err(op, a, b)
                       ELSE LET c == Choose(a[2], MinI(a[3], a[2] - a[3])) IN Fit(Int2(a[2]), Own(a[1])) /\ Fit(c, Own(a[1])) /\ Ok(op, a, b, Wire(c))
    [] op = "bpow" -> IF a[2] < 0 THEN Err(op, a, b)
                      ELSE InPow(X(b), a[2], I64) /\ Ok(op, a, b, Wire(Pow(X(b), a[2])))
    [] op = "gpow" -> IF a[2] < 0 THEN Err(op, a, b)                                                \* int, int64, double
                      ELSE IF Vast(a) THEN Unit(X(b)) /\ Ok(op, a, b, Wire(IF X(b).s = 0 THEN Zero ELSE Pow(X(b), a[2])))
                      ELSE InPow(X(b), a[2], Own(a[1])) /\ Ok(op, a, b, Wire(Pow(X(b), a[2])))
    [] op = "bigpow" -> a[2] >= 0 /\ (IF a[2] = 0 THEN Ok(op, a, b, Wire(One))                       \* BigNum with 120 digits
                       ELSE LET p == Pow(X(b), a[2]) IN Len(p.d) <= 30 /\ Ok(op, a, b, Wire(p)))
    [] op = "fpow" -> IF a[2] < 0 THEN Err(op, a, b)                                                \* Fraction b[1]/b[2], lowest terms
                      ELSE LET p == FracPow(b, a[2]) IN Fit(p[1], I32) /\ Fit(p[2], I32) /\ Ok(op, a, b, Wire(p[1]) \o Wire(p[2]))
    [] op \in {"mpow", "spow"} -> IF a[2] <= 0 THEN op = "spow" /\ Err(op, a, b)                     \* matrices; spow: type without a unit
                      ELSE IF Vast(a) THEN Rotation(M4(b)) /\ Ok(op, a, b, Wire4(MPow(M4(b), ((a[2] + 4) % 12) + 12)))
                      ELSE MFit(M4(b), a[2]) /\ Ok(op, a, b, Wire4(MPow(M4(b), a[2])))
=============================================================================
