-------------------------------- MODULE Func --------------------------------
(***************************************************************************)
(* Property C23: zip, mapAll, filterContainer and stringCast.                 *)
(* "zip": b = the containers, each <<length>> \o elements; r = number of        *)
(*   tuples, then every tuple as <<width>> \o elements.                        *)
(* "map"/"filter": a = <<container kind, function>>, b = elements; r = number   *)
(*   of calls, the arguments of the calls in order, number of results, results,  *)
(*   then the container afterwards.                                           *)
(* "cast": a = <<type>>, b = text; results as BigDec (reals times 10^6).         *)
(***************************************************************************)
EXTENDS BigDec, TLC
VARIABLE last
vars == <<last>>
Init == last = Nothing
Start == last' = Nothing
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
Int2(n) == IF n < 0 THEN Mk(-1, Limbs(0 - n)) ELSE Mk(1, Limbs(n))
Wire(x) == <<x.s, Len(x.d)>> \o x.d
At(b, i) == [s |-> b[i], d |-> SubSeq(b, i + 2, i + 1 + b[i + 1])]
Leq(x, y) == BCmp(x, y) <= 0
(* ---- zip ------------------------------------------------------------------*)
RECURSIVE Parts(_, _)
Parts(b, i) == IF i > Len(b) THEN <<>> ELSE <<SubSeq(b, i + 1, i + b[i])>> \o Parts(b, i + 1 + b[i])
RECURSIVE MinLen(_, _)
MinLen(ps, i) == IF i = Len(ps) THEN Len(ps[i]) ELSE MinI(Len(ps[i]), MinLen(ps, i + 1))
(* tuples all have the same width here, so the flat form is a function of the position *)
FlatT(ss, w) == [k \in 1..(Len(ss) * (w + 1)) |-> LET i == (k - 1) \div (w + 1) + 1  j == (k - 1) % (w + 1) IN IF j = 0 THEN w ELSE ss[i][j]]
ZipOf(ps) == [i \in 1..MinLen(ps, 1) |-> [j \in 1..Len(ps) |-> ps[j][i]]]
(* ---- map, filter ------------------------------------------------------------*)
Fun(f, x) == CASE f = 0 -> 2 * x [] f = 1 -> 0 - x [] f = 2 -> 7 [] f = 3 -> x * x [] f = 4 -> x + 1000
Pred(f, x) == CASE f = 0 -> x > 2 [] f = 1 -> x % 2 = 0 [] f = 2 -> TRUE [] f = 3 -> FALSE [] f = 4 -> x # 3 [] f = 5 -> x < 0
(* containers 0..5 are sequences, 6 set, 7 multiset: given in their iteration order *)
Sorted(b, strict) == \A i \in 1..(Len(b) - 1) : IF strict THEN b[i] < b[i + 1] ELSE b[i] <= b[i + 1]
MapOf(f, b) == [i \in DOMAIN b |-> Fun(f, b[i])]
FilterOf(f, b) == SelectSeq(b, LAMBDA x : Pred(f, x))
(* ---- the value a text denotes ------------------------------------------------*)
Blank(c) == c \in 9..13 \cup {32}
Digit(c) == c \in 48..57
(* length of the longest prefix of t whose elements all satisfy P *)
Span(t, P(_)) == IF \A i \in DOMAIN t : P(t[i]) THEN Len(t) ELSE (CHOOSE i \in DOMAIN t : ~P(t[i]) /\ \A j \in 1..(i - 1) : P(t[j])) - 1
SkipBlank(t) == SubSeq(t, Span(t, Blank) + 1, Len(t))
DigitsOf(t) == [i \in 1..Span(t, Digit) |-> t[i] - 48]
RECURSIVE ValueOf0(_)
ValueOf0(ds) == IF ds = <<>> THEN Zero ELSE BAdd(BMul(Int2(10), TLCEval(ValueOf0(Front(ds)))), Int2(ds[Len(ds)]))
IsZero(d) == d = 0
ValueOf(ds) == ValueOf0(SubSeq(ds, Span(ds, IsZero) + 1, Len(ds)))
Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Sign(t) == IF t # <<>> /\ t[1] = 45 THEN -1 ELSE 1
Unsign(t) == IF Signed(t) THEN Tail(t) ELSE t
Drop(t, n) == SubSeq(t, n + 1, Len(t))
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN One ELSE BMul(Int2(2), TLCEval(P2(n - 1)))
MaxOf(ty) == CASE ty = 0 -> BSub(P2(31), One) [] ty = 1 -> BSub(P2(63), One) [] ty = 6 -> BSub(P2(32), One) [] ty = 7 -> BSub(P2(15), One)
MinOf(ty) == IF ty = 6 THEN Zero ELSE BSub(BNeg(MaxOf(ty)), One)
Clamp(x, lo, hi) == IF BCmp(x, lo) < 0 THEN lo ELSE IF BCmp(x, hi) > 0 THEN hi ELSE x
IntText(ty, t) == LET u == SkipBlank(t)
                      v == ValueOf(DigitsOf(Unsign(u)))
                  IN Clamp(IF Sign(u) < 0 THEN BNeg(v) ELSE v, MinOf(ty), MaxOf(ty))
(* reals: sign, digits, optional fraction, optional exponent: mantissa * 10^exp *)
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN One ELSE BMul(Int2(10), TLCEval(P10(n - 1)))
Real(t) == LET u == SkipBlank(t)
               w == DigitsOf(Unsign(u))
               r1 == Drop(Unsign(u), Len(w))
               f == IF r1 # <<>> /\ r1[1] = 46 THEN DigitsOf(Tail(r1)) ELSE <<>>
               r2 == IF r1 # <<>> /\ r1[1] = 46 THEN Drop(r1, Len(f) + 1) ELSE r1
               x == IF r2 # <<>> /\ r2[1] \in {101, 69} THEN Tail(r2) ELSE <<>>
               xd == DigitsOf(Unsign(x))
               e0 == IF xd = <<>> THEN 0 ELSE LET g[i \in 0..Len(xd)] == IF i = 0 THEN 0 ELSE MinI(g[i - 1] * 10 + xd[i], 1000) IN g[Len(xd)]
               m == ValueOf(w \o f)
           IN [m |-> IF Sign(u) < 0 THEN BNeg(m) ELSE m, e |-> (IF Sign(x) < 0 THEN 0 - e0 ELSE e0) - Len(f)]
E9 == Mk(1, <<0, 0, 10>>)
(* |v - 10^6 m 10^e| <= 1 + |v| / 10^9 *)
NearReal(v, x) == LET num == IF x.e + 6 >= 0 THEN BMul(x.m, P10(x.e + 6)) ELSE x.m
                      den == IF x.e + 6 >= 0 THEN One ELSE P10(0 - (x.e + 6))
                  IN Leq(BMul(E9, BAbs(BSub(BMul(v, den), num))), BMul(den, BAdd(E9, BAbs(v))))
NotBlank(c) == ~Blank(c)
Word(t) == SubSeq(t, 1, Span(t, NotBlank))
(* texts the specification speaks about, per type *)
Complete(t) == LET u == SkipBlank(t)                           \* a whole real numeral, then a blank or the end; or no numeral at all
                   w == DigitsOf(Unsign(u))
                   r1 == Drop(Unsign(u), Len(w))
                   f == IF r1 # <<>> /\ r1[1] = 46 THEN DigitsOf(Tail(r1)) ELSE <<>>
                   r2 == IF r1 # <<>> /\ r1[1] = 46 THEN Drop(r1, Len(f) + 1) ELSE r1
                   x == IF r2 # <<>> /\ r2[1] \in {101, 69} THEN Tail(r2) ELSE <<>>
                   xd == DigitsOf(Unsign(x))
                   r3 == IF r2 # <<>> /\ r2[1] \in {101, 69} THEN Drop(Unsign(x), Len(xd)) ELSE r2
               IN IF u = <<>> THEN TRUE ELSE IF ~Signed(u) /\ ~Digit(u[1]) /\ u[1] # 46 THEN u[1] \in {35, 47, 58, 120, 113}      \* # / : x q
                  ELSE w \o f # <<>> /\ (r2 # <<>> /\ r2[1] \in {101, 69} => xd # <<>>) /\ (IF r3 = <<>> THEN TRUE ELSE Blank(r3[1]))
                       /\ Abs(Real(t).e) <= 40 /\ Len(w \o f) <= 30
Legal(op, a, b) ==
  CASE op = "zip" -> b # <<>> /\ Len(Parts(b, 1)) >= 1
    [] op = "map" -> (\A i \in DOMAIN b : Abs(b[i]) < 40000) /\ (a[1] = 6 => Sorted(b, TRUE)) /\ (a[1] = 7 => Sorted(b, FALSE))
    [] op = "filter" -> (a[1] = 6 => Sorted(b, TRUE)) /\ (a[1] = 7 => Sorted(b, FALSE))
    [] op = "cast" -> CASE a[1] = 2 -> Complete(b)
                        [] a[1] = 3 -> SkipBlank(b) \in {<<48>>, <<49>>, <<>>}
                        [] a[1] = 4 -> TRUE
                        [] a[1] = 5 -> TRUE
                        [] a[1] = 6 -> Sign(SkipBlank(b)) = 1
                        [] OTHER -> TRUE
DoR(op, a, b, out, r) ==
  /\ out = "ok" /\ last' = Ev(op, a, b, <<>>, out, r)
  /\ CASE op = "zip" -> LET z == ZipOf(Parts(b, 1)) IN r = <<Len(z)>> \o FlatT(z, Len(Parts(b, 1))) \o b         \* the inputs are unchanged
       [] op = "map" -> r = <<Len(b)>> \o b \o <<Len(b)>> \o MapOf(a[2], b) \o b
       [] op = "filter" -> LET z == FilterOf(a[2], b) IN r = <<Len(b)>> \o b \o <<Len(z)>> \o z \o b
       [] op = "cast" -> CASE a[1] \in {0, 1, 6, 7} -> r = Wire(IntText(a[1], b))
                           [] a[1] = 2 -> Len(r) >= 2 /\ r[1] \in {-1, 0, 1} /\ NearReal(At(r, 1), Real(b))
                           [] a[1] = 3 -> r = Wire(IF SkipBlank(b) = <<49>> THEN One ELSE Zero)
                           [] a[1] = 4 -> r = Wire(IF SkipBlank(b) = <<>> THEN Zero ELSE Int2(SkipBlank(b)[1]))
                           [] a[1] = 5 -> r = Word(SkipBlank(b))
=============================================================================
