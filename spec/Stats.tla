-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* Property C18.  A data set is a sequence b of integers; its elements are    *)
(* b[i] / D (D a power of two, so they are exact machine numbers).  Results    *)
(* of mean, variance and standard deviation are observed as v, the real value  *)
(* times 10^6 rounded; they have to be within rounding of the exact rational   *)
(* (or its square root).  a = <<overload, D, size>>.  The overloads of 64-bit  *)
(* integers (Wide) take two numbers per element: b[2i-1] * 2^30 + b[2i].       *)
(***************************************************************************)
EXTENDS IntMath
(* ---- exact statistics of a sequence of BigDec ---- *)
SumOf(s, n) == FoldLeft(BAdd, Zero, SubSeq(s, 1, n))
Nums(b, n) == [i \in 1..n |-> Int2(b[i])]
Wide == {13, 14, 15, 16}
P30 == Int2(1073741824)
Elems(k, b, n) == IF k \in Wide THEN [i \in 1..n |-> BAdd(BMul(Int2(b[(2 * i) - 1]), P30), Int2(b[2 * i]))] ELSE Nums(b, n)
Count(k, b) == IF k \in Wide THEN Len(b) \div 2 ELSE Len(b)
Sq(s) == [i \in DOMAIN s |-> BMul(s[i], s[i])]
(* n * (sum of squared deviations from the mean), for integers *)
Spread(s) == LET t == SumOf(s, Len(s)) IN BSub(BMul(Int2(Len(s)), SumOf(Sq(s), Len(s))), BMul(t, t))
E6 == Int2(1000000)
E9 == Mk(1, <<0, 0, 10>>)
E12 == BMul(E6, E6)
(* |v - 10^6 * num / den| <= 1 + |v| / 10^9, multiplied out: everything an exact integer *)
Near(v, num, den) ==
   LET diff == BAbs(BSub(BMul(v, den), BMul(E6, num)))
       lim == BMul(den, BAdd(E9, BAbs(v)))
   IN Leq(BMul(diff, E9), BMul(lim, Int2(2)))
(* the same for the square root of num / den *)
NearRoot(v, num, den) ==
   LET d == BAdd(E9, BMul(BAbs(v), Int2(1)))            \* tolerance times 10^9
       up == BAdd(BMul(v, E9), BMul(d, Int2(2)))
       lo == BSub(BMul(v, E9), BMul(d, Int2(2)))
       goal == BMul(BMul(BMul(E9, E9), E12), num)      \* (10^9 * 10^6)^2 * num
   IN /\ v.s >= 0 /\ Leq(goal, BMul(BMul(up, up), den))
      /\ (lo.s > 0 => Leq(BMul(BMul(lo, lo), den), goal))
(* the two integer arrays and containers of integers only have whole numbers *)
N(a) == a[3]
D(a) == Int2(a[2])
Half(x) == x                                              \* fn(x) = x / 2: the sum of fn has denominator 2 D
SmallFloats(b) == TRUE = (\A i \in DOMAIN b : Abs(b[i]) < 4194304)        \* (an equation: TLC unfolds a bare \A of an action element by element)
Legal(op, a, b) == N(a) <= Count(a[1], b) /\ (a[1] \in {11, 18} => SmallFloats(b)) /\ (CASE op \in {"sum", "fsum", "gsum"} -> TRUE [] op \in {"mean", "var", "sd"} -> N(a) # 0 [] OTHER -> N(a) < 0 \/ N(a) > 1)
Result(op, a, b, r) ==
  IF N(a) <= 0 THEN (IF op \in {"sum", "fsum", "gsum"} THEN r = <<1>> \o Wire(Zero) \o (IF op # "sum" THEN <<0>> ELSE <<>>) ELSE r = <<1>> \o Wire(Zero))
  ELSE LET n == N(a)
           s == TLCEval(Elems(a[1], b, n))
           t == TLCEval(SumOf(s, n))
           v == At(r, 2)
           nn == Int2(n)
       IN CASE op = "sum"  -> r = <<1>> \o Wire(t)                                    \* exact: D times the sum
            [] op = "fsum" -> r = <<1>> \o Wire(t) \o <<n>>                            \* 2 D times the sum of fn(x) = x/2; number of calls of fn
            [] op = "gsum" -> r = <<1>> \o Wire(BMul(Int2(2), t)) \o <<n>>              \* fn(x) = x + x, of the element type
            [] op = "mean" -> r[1] = 1 /\ Near(v, t, BMul(nn, D(a)))
            [] op = "var"  -> r[1] = 1 /\ Near(v, Spread(s), BMul(BMul(nn, nn), BMul(D(a), D(a))))
            [] op = "svar" -> r[1] = 1 /\ Near(v, Spread(s), BMul(BMul(nn, Int2(n - 1)), BMul(D(a), D(a))))
            [] op = "sd"   -> r[1] = 1 /\ NearRoot(v, Spread(s), BMul(BMul(nn, nn), BMul(D(a), D(a))))
            [] op = "ssd"  -> r[1] = 1 /\ NearRoot(v, Spread(s), BMul(BMul(nn, Int2(n - 1)), BMul(D(a), D(a))))
DoR(op, a, b, out, r) == out = "ok" /\ Result(op, a, b, r) /\ last' = Ev(op, a, b, <<>>, out, r)
=============================================================================
