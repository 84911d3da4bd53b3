-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Property C21: points, vectors, lines, segments and circles.                *)
(* pts: the live points, coordinates exact in units of 1/U.  Lines, segments   *)
(* and circles are given by their coordinates in the same unit.  Real results  *)
(* are observed as a BigDec, the value times 10^9 rounded, and have to be       *)
(* within rounding of the exact rational or square root.                      *)
(***************************************************************************)
EXTENDS BigDec, TLC
CONSTANT U
VARIABLES pts, last
vars == <<pts, last>>
Empty == [x \in {} |-> <<>>]
Init == pts = Empty /\ last = Nothing
Start == pts' = Empty /\ last' = Nothing
(* ---- numbers -------------------------------------------------------------*)
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
Int2(n) == IF n < 0 THEN Mk(-1, Limbs(0 - n)) ELSE Mk(1, Limbs(n))
At(b, i) == [s |-> b[i], d |-> SubSeq(b, i + 2, i + 1 + b[i + 1])]
Skip(b, i) == i + 2 + b[i + 1]
Fine(b, i) == b[i] \in {-1, 0, 1}                                          \* a finite number starts at i
Leq(x, y) == BCmp(x, y) <= 0
E8 == Mk(1, <<0, 0, 1>>)
E9 == Mk(1, <<0, 0, 10>>)
Slack(v) == BAdd(BMul(Int2(101), E8), BAbs(v))                               \* 10^8 (100 + 1 + |v| / 10^8)
(* |v / 10^9 - num / den| <= 1e-7 + 1e-8 |v / 10^9| *)
Near(v, num, den) == LET m == BAbs(den)
                         n == IF den.s < 0 THEN BNeg(num) ELSE num
                     IN Leq(BMul(E8, BAbs(BSub(BMul(v, m), BMul(n, E9)))), BMul(m, Slack(v)))
(* v / 10^9 is the square root of num / den, with the same tolerance *)
NearRoot(v, num, den) ==
  LET hi == BAdd(BMul(v, E8), Slack(v))
      lo == BSub(BMul(v, E8), Slack(v))
      goal == BMul(num, BMul(BMul(E8, E9), BMul(E8, E9)))
  IN v.s >= 0 /\ Leq(goal, BMul(den, BMul(hi, hi))) /\ (lo.s > 0 => Leq(BMul(den, BMul(lo, lo)), goal))
UU == Int2(U)
U2 == BMul(UU, UU)
(* ---- vectors of machine integers, products as BigDec ------------------------*)
Vsub(x, y) == [i \in DOMAIN x |-> x[i] - y[i]]
Vadd(x, y) == [i \in DOMAIN x |-> x[i] + y[i]]
RECURSIVE DotAt(_, _, _)
DotAt(x, y, i) == IF i = 0 THEN Zero ELSE BAdd(BMul(Int2(x[i]), Int2(y[i])), DotAt(x, y, i - 1))
Dot(x, y) == DotAt(x, y, Len(x))
Cross(x, y) == BSub(BMul(Int2(x[1]), Int2(y[2])), BMul(Int2(x[2]), Int2(y[1])))
RECURSIVE LexAt(_, _, _)
LexAt(x, y, i) == IF i > Len(x) THEN 0 ELSE IF x[i] # y[i] THEN (IF x[i] < y[i] THEN -1 ELSE 1) ELSE LexAt(x, y, i + 1)
Cmp(x, y) == LexAt(x, y, 1)
(* ---- text of a coordinate, a multiple of 1/4 below 10000 in magnitude ----------*)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
NumText(x) == LET q == (Abs(x) * 4) \div U
                  f == CASE q % 4 = 0 -> <<>> [] q % 4 = 1 -> <<46, 50, 53>> [] q % 4 = 2 -> <<46, 53>> [] q % 4 = 3 -> <<46, 55, 53>>
              IN {(IF x < 0 THEN <<45>> ELSE <<>>) \o Digits(q \div 4) \o f} \cup (IF x = 0 THEN {<<45, 48>>} ELSE {})
RECURSIVE TextsAt(_, _)
TextsAt(v, i) == IF i > Len(v) THEN {<<41>>} ELSE {(IF i = 1 THEN <<40>> ELSE <<44, 32>>) \o n \o t : n \in NumText(v[i]), t \in TextsAt(v, i + 1)}
Printable(v) == \A i \in DOMAIN v : (Abs(v[i]) * 4) % U = 0 /\ Abs(v[i]) < 1000 * U
(* ---- lines: point A and direction v; a = <<x, y>> units ------------------------*)
P1(a, i) == <<a[i], a[i + 1]>>
(* intersection of (A, v) and (B, w): A + v t,  t = cross(w, A - B) / cross(v, w) *)
InterNum(A, v, B, w, i) == BAdd(BMul(Int2(A[i]), Cross(v, w)), BMul(Int2(v[i]), Cross(w, Vsub(A, B))))
InterOk(a, r) == LET A == P1(a, 1)
                     v == P1(a, 3)
                     B == P1(a, 5)
                     w == P1(a, 7)
                     k == Skip(r, 1)
                 IN /\ Fine(r, 1) /\ Fine(r, k)
                    /\ Near(At(r, 1), InterNum(A, v, B, w, 1), BMul(UU, Cross(v, w)))
                    /\ Near(At(r, k), InterNum(A, v, B, w, 2), BMul(UU, Cross(v, w)))
(* squared distance of P from the line, and from the segment A .. A + v, as <<num, den>> in units^2 *)
Sq(x) == BMul(x, x)
Line2(P, A, v) == <<Sq(Cross(v, Vsub(P, A))), Dot(v, v)>>
Seg2(P, A, v) == LET p == Vsub(P, A)
                     q == Vsub(p, v)
                 IN IF Dot(v, p).s < 0 \/ Dot(v, v).s = 0 THEN <<Dot(p, p), One>>
                    ELSE IF Dot(v, q).s > 0 THEN <<Dot(q, q), One>> ELSE Line2(P, A, v)
DistOk(f, r) == Fine(r, 1) /\ NearRoot(At(r, 1), f[1], BMul(f[2], U2))
(* ---- circles: a = <<ox, oy, radius, k>>, angle k * pi/12 ----------------------*)
PiE == Int2(314159265)                                                     \* pi * 10^8
E7 == Int2(10000000)
(* |v / 10^9 - num / den| <= 1e-7 |num / den| + 1e-9 *)
NearRel(v, num, den) == Leq(BMul(E7, BAbs(BSub(BMul(v, den), BMul(num, E9)))), BAdd(BMul(den, Int2(20000000)), BMul(BAbs(num), E9)))
CosT == <<1000000000, 965925826, 866025404, 707106781, 500000000, 258819045, 0>>
CosK(k) == LET m == k % 24
               j == IF m > 12 THEN 24 - m ELSE m
           IN IF j <= 6 THEN CosT[j + 1] ELSE 0 - CosT[12 - j + 1]
SinK(k) == CosK(k - 6)
(* coordinate o + r c / 10^9, in units: |v/10^9 * U - (o + r c/10^9)| small compared to r *)
PtOk(v, o, rad, c) == LET num == BAdd(BMul(Int2(o), E9), BMul(Int2(rad), Int2(c)))     \* times 10^9
                          diff == BAbs(BSub(BMul(v, UU), num))
                      IN Leq(diff, BAdd(BMul(Int2(3), Int2(rad)), BAdd(BAbs(Int2(o)), Int2(2 * U))))
(* ---- calls ---------------------------------------------------------------*)
Slot(k, v) == [x \in DOMAIN pts \cup {k} |-> IF x = k THEN v ELSE pts[x]]
Has(k) == k \in DOMAIN pts
Same(i, j) == Has(i) /\ Has(j) /\ Len(pts[i]) = Len(pts[j])
Lim == 1000000
Small(v) == \A i \in DOMAIN v : Abs(v[i]) <= Lim
(* scaling by num/den: exact when every coordinate stays a whole number of units *)
ScaleOk(v, num, den) == den # 0 /\ \A i \in DOMAIN v : Abs(v[i] * num) <= 64 * Lim /\ (v[i] * num) % Abs(den) = 0
Scale(v, num, den) == [i \in DOMAIN v |-> LET p == v[i] * num IN IF (p < 0) # (den < 0) THEN 0 - (Abs(p) \div Abs(den)) ELSE Abs(p) \div Abs(den)]
RECURSIVE AllFine(_, _, _)
AllFine(r, i, n) == IF n = 0 THEN i = Len(r) + 1 ELSE i + 1 <= Len(r) /\ Fine(r, i) /\ AllFine(r, Skip(r, i), n - 1)
RECURSIVE NthAt(_, _, _)
NthAt(r, i, n) == IF n = 1 THEN At(r, i) ELSE NthAt(r, Skip(r, i), n - 1)
(* normalised coordinate e: e^2 = v_i^2 / |v|^2 with the sign of v_i *)
NormOk(v, r) == AllFine(r, 1, Len(v)) /\ \A i \in DOMAIN v :
   LET e == NthAt(r, 1, i) IN NearRoot(BAbs(e), Sq(Int2(v[i])), Dot(v, v)) /\ (Abs(v[i]) > 1 => e.s * (IF v[i] < 0 THEN -1 ELSE 1) >= 0)
Legal(op, a, b) ==
  CASE op = "new" -> Len(b) \in 1..5 /\ Small(b)
    [] op = "zero" -> a[2] \in 1..5
    [] op \in {"copy", "asg"} -> Has(a[2]) /\ (op = "asg" => Same(a[1], a[2]))
    [] op \in {"get", "len", "norm"} -> Has(a[1]) /\ (op = "norm" => Dot(pts[a[1]], pts[a[1]]).s > 0)
    [] op = "str" -> Has(a[1]) /\ Printable(pts[a[1]])
    [] op = "set" -> Has(a[1]) /\ a[2] \in 0..(Len(pts[a[1]]) - 1) /\ Abs(a[3]) <= Lim
    [] op = "add" -> Same(a[2], a[3]) /\ Small(Vadd(pts[a[2]], pts[a[3]]))
    [] op = "sub" -> Same(a[2], a[3]) /\ Small(Vsub(pts[a[2]], pts[a[3]]))
    [] op \in {"adda"} -> Same(a[1], a[2]) /\ Small(Vadd(pts[a[1]], pts[a[2]]))
    [] op \in {"suba"} -> Same(a[1], a[2]) /\ Small(Vsub(pts[a[1]], pts[a[2]]))
    [] op \in {"mul", "rmul"} -> Has(a[2]) /\ ScaleOk(pts[a[2]], a[3], a[4]) /\ Small(Scale(pts[a[2]], a[3], a[4]))
    [] op = "div" -> Has(a[2]) /\ a[3] # 0 /\ ScaleOk(pts[a[2]], a[4], a[3]) /\ Small(Scale(pts[a[2]], a[4], a[3]))
    [] op = "mula" -> Has(a[1]) /\ ScaleOk(pts[a[1]], a[2], a[3]) /\ Small(Scale(pts[a[1]], a[2], a[3]))
    [] op = "diva" -> Has(a[1]) /\ a[2] # 0 /\ ScaleOk(pts[a[1]], a[3], a[2]) /\ Small(Scale(pts[a[1]], a[3], a[2]))
    [] op \in {"dot", "cmp"} -> Same(a[1], a[2])
    [] op = "cross" -> Same(a[1], a[2]) /\ Len(pts[a[1]]) = 2
    [] op = "near" -> Len(a) > 0 /\ Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(b[i]) # 100           \* b: differences in 1e-8
    [] op = "scale" -> Len(b) \in 1..5 /\ a[1] \in 0..4 /\ a[2] # 0 /\ a[3] > 0                     \* by a[2]/a[3], not necessarily dyadic
    [] op = "inter" -> Cross(P1(a, 3), P1(a, 7)).s # 0
    [] op = "dline" -> Dot(P1(a, 5), P1(a, 5)).s # 0
    [] op \in {"dseg", "llen"} -> TRUE
    [] op \in {"area", "peri", "cpt"} -> a[3] >= 0
DoR(op, a, b, out, r) ==
  /\ out = "ok"
  /\ last' = Ev(op, a, b, <<>>, out, r)
  /\ CASE op = "new" -> r = <<>> /\ pts' = Slot(a[1], b)
       [] op = "zero" -> r = <<>> /\ pts' = Slot(a[1], [i \in 1..a[2] |-> 0])
       [] op \in {"copy", "asg"} -> r = <<>> /\ pts' = Slot(a[1], pts[a[2]])
       [] op = "set" -> r = <<>> /\ pts' = Slot(a[1], [pts[a[1]] EXCEPT ![a[2] + 1] = a[3]])
       [] op = "add" -> r = <<>> /\ pts' = Slot(a[1], Vadd(pts[a[2]], pts[a[3]]))
       [] op = "sub" -> r = <<>> /\ pts' = Slot(a[1], Vsub(pts[a[2]], pts[a[3]]))
       [] op = "adda" -> r = <<>> /\ pts' = Slot(a[1], Vadd(pts[a[1]], pts[a[2]]))
       [] op = "suba" -> r = <<>> /\ pts' = Slot(a[1], Vsub(pts[a[1]], pts[a[2]]))
       [] op \in {"mul", "rmul"} -> r = <<>> /\ pts' = Slot(a[1], Scale(pts[a[2]], a[3], a[4]))
       [] op = "div" -> r = <<>> /\ pts' = Slot(a[1], Scale(pts[a[2]], a[4], a[3]))
       [] op = "mula" -> r = <<>> /\ pts' = Slot(a[1], Scale(pts[a[1]], a[2], a[3]))
       [] op = "diva" -> r = <<>> /\ pts' = Slot(a[1], Scale(pts[a[1]], a[3], a[2]))
       [] OTHER -> pts' = pts
  /\ CASE op = "get" -> r = pts[a[1]]                                                     \* every coordinate, exact
       [] op = "str" -> r \in TextsAt(pts[a[1]], 1)
       [] op = "len" -> Fine(r, 1) /\ NearRoot(At(r, 1), Dot(pts[a[1]], pts[a[1]]), U2)
       [] op = "norm" -> NormOk(pts[a[1]], r)
       [] op = "dot" -> Fine(r, 1) /\ Near(At(r, 1), Dot(pts[a[1]], pts[a[2]]), U2) /\ At(r, Skip(r, 1)) = At(r, 1)
       [] op = "cross" -> Fine(r, 1) /\ Near(At(r, 1), Cross(pts[a[1]], pts[a[2]]), U2)
       [] op = "cmp" -> LET c == Cmp(pts[a[1]], pts[a[2]]) IN r = <<Bit(c = 0), Bit(c # 0), Bit(c < 0), Bit(c <= 0), Bit(c > 0), Bit(c >= 0)>>
       [] op = "near" -> LET e == \A i \in DOMAIN b : Abs(b[i]) < 100
                               c == FoldLeft(LAMBDA t, x : IF t # 0 THEN t ELSE x, 0, b)              \* the order is exact: the first difference decides
                           IN r = <<Bit(e), Bit(~e), Bit(c > 0), Bit(c >= 0), Bit(c < 0), Bit(c <= 0)>>
       [] op = "scale" -> LET num == Int2(IF a[1] < 3 THEN a[2] ELSE a[3])
                              den == Int2(IF a[1] < 3 THEN a[3] ELSE a[2])
                          IN AllFine(r, 1, Len(b)) /\ \A i \in DOMAIN b : Near(NthAt(r, 1, i), BMul(Int2(b[i]), num), BMul(UU, den))
       [] op = "inter" -> InterOk(a, r)
       [] op = "dline" -> DistOk(Line2(P1(a, 1), P1(a, 3), P1(a, 5)), r)
       [] op = "dseg" -> DistOk(Seg2(P1(a, 1), P1(a, 3), P1(a, 5)), r)
       [] op = "llen" -> Fine(r, 1) /\ NearRoot(At(r, 1), Dot(P1(a, 3), P1(a, 3)), U2)
       [] op = "area" -> Fine(r, 1) /\ NearRel(At(r, 1), BMul(PiE, Sq(Int2(a[3]))), BMul(E8, U2))
       [] op = "peri" -> Fine(r, 1) /\ NearRel(At(r, 1), BMul(PiE, Int2(2 * a[3])), BMul(E8, UU))
       [] op = "cpt" -> AllFine(r, 1, 2) /\ PtOk(NthAt(r, 1, 1), a[1], a[3], CosK(a[4])) /\ PtOk(NthAt(r, 1, 2), a[2], a[3], SinK(a[4]))
       [] OTHER -> TRUE
=============================================================================
