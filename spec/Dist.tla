-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Property C20: support, law and termination of the distributions.           *)
(* Discrete laws (1 Bernoulli, 2 Binomial, 3 Poisson, 4 Geometric, 5 Negative  *)
(* binomial): the distribution functions are computed here, exactly or in 24    *)
(* digit fixed point, and compared with cumulative counts over equally spaced   *)
(* uniform inputs.  Continuous laws: table of values of the distribution        *)
(* function (edges in 1/1000, probabilities in 10^-6, medians in 10^-6).        *)
(***************************************************************************)
EXTENDS BigDec, TLC
VARIABLE last
vars == <<last>>
Init == last = Nothing
Start == last' = Nothing
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
Int2(n) == IF n < 0 THEN Mk(-1, Limbs(0 - n)) ELSE Mk(1, Limbs(n))
Leq(x, y) == BCmp(x, y) <= 0
RECURSIVE DivAt(_, _, _, _, _)
DivAt(x, k, i, rem, q) == IF i = 0 THEN Mk(1, q) ELSE LET v == (rem * Base) + x.d[i] IN DivAt(x, k, i - 1, v % k, <<v \div k>> \o q)
DivS(x, k) == DivAt(x, k, Len(x.d), 0, <<>>)                                   \* x >= 0, 0 < k < 200000
RECURSIVE Pw(_, _)
Pw(x, e) == IF e = 0 THEN One ELSE TLCEval(BMul(x, Pw(x, e - 1)))
S24 == Mk(1, <<0, 0, 0, 0, 0, 0, 1>>)                                          \* 10^24 = Base^6
(* ---- weights of 0..k; the law is weight / total ---------------------------------------------*)
BinW(n, num, den, k) ==
  LET C[x \in 0..n] == IF x = 0 THEN One ELSE TLCEval(DivS(BMul(C[x - 1], Int2(n + 1 - x)), x))
  IN [x \in 0..k |-> IF x > n THEN Zero ELSE BMul(C[x], BMul(Pw(Int2(num), x), Pw(Int2(den - num), n - x)))]
RECURSIVE PoiTo(_, _, _, _)             \* lambda^x / x! in fixed point until it vanishes
PoiTo(num, den, x, t) == IF t.s = 0 THEN <<>> ELSE <<t>> \o PoiTo(num, den, x + 1, TLCEval(DivS(DivS(BMul(t, Int2(num)), den), x + 1)))
RECURSIVE NegTo(_, _, _, _, _, _)
NegTo(r, num, den, x, t, k) == IF x > k THEN <<>> ELSE <<t>> \o NegTo(r, num, den, x + 1, TLCEval(DivS(DivS(BMul(BMul(t, Int2(den - num)), Int2(r + x)), den), x + 1)), k)
RECURSIVE DivPow(_, _, _)
DivPow(x, den, r) == IF r = 0 THEN x ELSE DivPow(DivS(x, den), den, r - 1)
RECURSIVE Cum(_, _, _)
Cum(w, i, acc) == IF i > Len(w) THEN <<>> ELSE LET s == TLCEval(BAdd(acc, w[i])) IN <<s>> \o Cum(w, i + 1, s)
At0(w, k) == [i \in 1..(k + 1) |-> IF i <= Len(w) THEN w[i] ELSE IF w = <<>> THEN Zero ELSE w[Len(w)]]
(* cumulative weights of 0..k and the total: [c, t] *)
LawOf(d, n, num, den, k) ==
  CASE d = 1 -> [c |-> At0(<<Int2(den - num), Int2(den)>>, k), t |-> Int2(den)]
    [] d = 2 -> LET w == BinW(n, num, den, MinI(k, n)) IN [c |-> At0(Cum([i \in 1..(MinI(k, n) + 1) |-> w[i - 1]], 1, Zero), k), t |-> Pw(Int2(den), n)]
    [] d = 3 -> LET c == Cum(PoiTo(num, den, 0, S24), 1, Zero) IN [c |-> At0(c, k), t |-> c[Len(c)]]
    [] d \in {4, 5} -> [c |-> At0(Cum(NegTo(n, num, den, 0, DivPow(BMul(S24, Pw(Int2(num), n)), den, n), k), 1, Zero), k), t |-> S24]
(* tight: one input per sample, equally spaced: the count is the exact share up to one (and 1e-6 relative rounding);   *)
(* loose: six standard deviations of a random sample                                                        *)
Tight(c, N, w, t) == LET diff == BAbs(BSub(BMul(Int2(c), t), BMul(Int2(N), w))) IN Leq(diff, BAdd(t, BMul(DivS(t, 100000), One)))
Loose(c, N, w, t) == LET diff == BSub(BMul(Int2(c), t), BMul(Int2(N), w))
                     IN Leq(BMul(diff, diff), BAdd(BMul(BMul(Int2(36 * N), w), BSub(t, w)), BMul(BMul(t, t), Int2(4))))
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
(* r = <<inputs used, values outside the support, count of 0, of 1, .. of k, count above k>>; a = <<d, n, num, den, N, k>> *)
CdfOk(a, r) ==
  LET N == a[5]
      k == a[6]
      law == TLCEval(LawOf(a[1], a[2], a[3], a[4], k))
      cnt == SubSeq(r, 3, k + 3)
      cum == [i \in 1..(k + 1) |-> SumSeq(cnt, i)]
  IN /\ Len(r) = k + 4 /\ r[2] = 0 /\ SumSeq(cnt, k + 1) + r[k + 4] = N
     /\ \A i \in 1..(k + 1) : IF r[1] = N THEN Tight(cum[i], N, law.c[i], law.t) ELSE Loose(cum[i], N, law.c[i], law.t)
(* one value for an extreme engine output: inside the support, and not beyond any plausible quantile *)
Support(a, v) ==
  CASE a[1] = 1 -> v \in {0, 1} /\ (a[3] = 0 => v = 0) /\ (a[3] = a[4] => v = 1) [] a[1] = 2 -> 0 <= v /\ v <= a[2] /\ (a[3] = 0 => v = 0) /\ (a[3] = a[4] => v = a[2])
    [] a[1] = 3 -> LET m == a[3] \div a[4] IN 0 <= v /\ (v > m + 80 => Leq(BMul(Int2(v - m - 80), Int2(v - m - 80)), BMul(Int2(900), Int2(m + 1))))
    [] a[1] \in {4, 5} -> 0 <= v /\ (a[3] = a[4] => v = 0) /\ Leq(BMul(Int2(v), Int2(a[3])), BMul(Int2(12 * (a[2] + 60)), Int2(a[4])))
(* large parameters: a = <<d, n, num, den, N, lo, mid, hi>>: share below mid about one half, share in lo..hi between 55% and 80%  *)
LargeOk(a, r) == /\ r[1] = 0 /\ 10 * r[2] >= 4 * a[5] /\ 10 * r[2] <= 6 * a[5] /\ 100 * r[3] >= 55 * a[5] /\ 100 * r[3] <= 80 * a[5]
(* ---- continuous laws ----------------------------------------------------------------------*)
Cases == <<
  [d |-> 1, p |-> <<0, 1000>>, e |-> <<-2000, -1000, -500, 0, 500, 1000, 2000>>, f |-> <<22750, 158655, 308538, 500000, 691462, 841345, 977250>>, m |-> 0],
  [d |-> 1, p |-> <<5000, 2000>>, e |-> <<1000, 3000, 4500, 5000, 7000, 9000>>, f |-> <<22750, 158655, 401294, 500000, 841345, 977250>>, m |-> 5000000],
  [d |-> 1, p |-> <<-1000, 250>>, e |-> <<-1500, -1250, -1000, -900, -750>>, f |-> <<22750, 158655, 500000, 655422, 841345>>, m |-> -1000000],
  [d |-> 2, p |-> <<1000, 0>>, e |-> <<50, 100, 500, 1000, 2000, 3000>>, f |-> <<48771, 95163, 393469, 632121, 864665, 950213>>, m |-> 693147],
  [d |-> 2, p |-> <<4000, 0>>, e |-> <<20, 50, 250, 500, 1000>>, f |-> <<76884, 181269, 632121, 864665, 981684>>, m |-> 173287],
  [d |-> 2, p |-> <<250, 0>>, e |-> <<1000, 4000, 8000>>, f |-> <<221199, 632121, 864665>>, m |-> 2772589],
  [d |-> 3, p |-> <<500, 2000>>, e |-> <<4, 64, 275, 708, 1642, 3841>>, f |-> <<50429, 199718, 400003, 599891, 799949, 949986>>, m |-> 454936],
  [d |-> 3, p |-> <<2500, 1000>>, e |-> <<573, 1171, 1828, 2566, 3645, 5535>>, f |-> <<50048, 199921, 400075, 600016, 800049, 949990>>, m |-> 2175730],
  [d |-> 3, p |-> <<3000, 500>>, e |-> <<409, 768, 1143, 1553, 2140, 3148>>, f |-> <<50046, 200243, 400245, 600134, 800123, 950008>>, m |-> 1337030],
  [d |-> 3, p |-> <<300, 1000>>, e |-> <<1, 3, 34, 141, 460, 1372>>, f |-> <<140242, 194902, 400899, 599711, 799973, 949976>>, m |-> 73131],
  [d |-> 3, p |-> <<7900, 3000>>, e |-> <<11731, 16474, 20688, 24856, 30352, 39055>>, f |-> <<49998, 200000, 399999, 600018, 800003, 949996>>, m |-> 22707851],
  [d |-> 3, p |-> <<1500, 100>>, e |-> <<18, 50, 93, 147, 232, 391>>, f |-> <<51624, 198748, 398034, 599031, 799863, 950118>>, m |-> 118299],
  [d |-> 3, p |-> <<1000, 1000>>, e |-> <<51, 223, 511, 916, 1609, 2996>>, f |-> <<49721, 199885, 400105, 599884, 799912, 950013>>, m |-> 693147],
  [d |-> 3, p |-> <<900, 2000>>, e |-> <<70, 351, 860, 1608, 2920, 5598>>, f |-> <<50051, 200102, 399969, 600036, 799984, 950002>>, m |-> 1193486],
  [d |-> 3, p |-> <<20250, 1000>>, e |-> <<13459, 16399, 18810, 21068, 23908, 28175>>, f |-> <<50013, 200013, 400014, 599982, 800005, 949993>>, m |-> 19917660],
  [d |-> 4, p |-> <<1000, 0>>, e |-> <<4, 102, 455, 1323, 3841>>, f |-> <<50429, 250557, 500030, 749946, 949986>>, m |-> 454936],
  [d |-> 4, p |-> <<2000, 0>>, e |-> <<103, 575, 1386, 2773, 5991>>, f |-> <<50196, 249863, 499926, 750051, 949988>>, m |-> 1386294],
  [d |-> 4, p |-> <<3000, 0>>, e |-> <<352, 1213, 2366, 4108, 7815>>, f |-> <<50031, 250112, 500005, 749964, 950006>>, m |-> 2365974],
  [d |-> 4, p |-> <<4000, 0>>, e |-> <<711, 1923, 3357, 5385, 9488>>, f |-> <<50034, 250081, 500048, 749975, 950006>>, m |-> 3356694],
  [d |-> 4, p |-> <<5500, 0>>, e |-> <<1384, 3062, 4850, 7236, 11838>>, f |-> <<49960, 250045, 500049, 750006, 950008>>, m |-> 4849623],
  [d |-> 4, p |-> <<12000, 0>>, e |-> <<5226, 8438, 11340, 14845, 21026>>, f |-> <<49999, 249966, 499973, 749977, 949999>>, m |-> 11340322],
  [d |-> 5, p |-> <<1000, 0>>, e |-> <<-2000, -1000, -400, 0, 400, 1000, 2414>>, f |-> <<147584, 250000, 378881, 500000, 621119, 750000, 874990>>, m |-> 0],
  [d |-> 5, p |-> <<2000, 0>>, e |-> <<-2000, -1000, -400, 0, 400, 1000, 2414>>, f |-> <<91752, 211325, 363917, 500000, 636083, 788675, 931418>>, m |-> 0],
  [d |-> 5, p |-> <<3000, 0>>, e |-> <<-2000, -1000, -400, 0, 400, 1000, 2414>>, f |-> <<69663, 195501, 357968, 500000, 642032, 804499, 952662>>, m |-> 0],
  [d |-> 5, p |-> <<5000, 0>>, e |-> <<-2000, -1000, -400, 0, 400, 1000, 2414>>, f |-> <<50970, 181609, 352837, 500000, 647163, 818391, 969718>>, m |-> 0],
  [d |-> 5, p |-> <<30000, 0>>, e |-> <<-2000, -1000, -400, 0, 400, 1000, 2414>>, f |-> <<27313, 162654, 345995, 500000, 654005, 837346, 988956>>, m |-> 0],
  [d |-> 5, p |-> <<1500, 0>>, e |-> <<-2000, -1000, -400, 0, 400, 1000, 2414>>, f |-> <<112094, 225568, 369360, 500000, 630640, 774432, 911200>>, m |-> 0],
  [d |-> 6, p |-> <<-2000, 3000>>, e |-> <<-1500, -1000, 0, 700, 2000, 2900>>, f |-> <<100000, 200000, 400000, 540000, 800000, 980000>>, m |-> 500000],
  [d |-> 6, p |-> <<0, 1000>>, e |-> <<100, 250, 500, 900>>, f |-> <<100000, 250000, 500000, 900000>>, m |-> 500000],
  [d |-> 1, p |-> <<2000000, 500>>, e |-> <<1999178, 1999579, 1999873, 2000127, 2000421, 2000822>>, f |-> <<50088, 199894, 399748, 600252, 800106, 949912>>, m |-> 2000000000],
  [d |-> 1, p |-> <<0, 20000000>>, e |-> <<-32897073, -16832425, -5066942, 5066942, 16832425, 32897073>>, f |-> <<50000, 200000, 400000, 600000, 800000, 950000>>, m |-> 0],
  [d |-> 2, p |-> <<1, 0>>, e |-> <<51293, 223144, 510826, 916291, 1609438, 2995732>>, f |-> <<50000, 200000, 400000, 600000, 800000, 950000>>, m |-> 693147181],
  [d |-> 2, p |-> <<40, 0>>, e |-> <<1282, 5579, 12771, 22907, 40236, 74893>>, f |-> <<49987, 200013, 400009, 599996, 800000, 949999>>, m |-> 17328680],
  [d |-> 3, p |-> <<900000, 1000>>, e |-> <<851229, 874659, 892089, 907287, 925147, 949908>>, f |-> <<49999, 199999, 399996, 600002, 800004, 950001>>, m |-> 899666689],
  [d |-> 3, p |-> <<1500500, 100>>, e |-> <<143736, 146781, 149038, 151000, 153300, 156478>>, f |-> <<50005, 200034, 400044, 599995, 799998, 950003>>, m |-> 150016668],
  [d |-> 3, p |-> <<50, 4000000>>, e |-> <<85, 27128, 1063729>>, f |-> <<599832, 800000, 950000>>, m |-> 2230],
  [d |-> 3, p |-> <<100, 1000000>>, e |-> <<64, 3684, 69390, 580435>>, f |-> <<400198, 599993, 800000, 950000>>, m |-> 593391],
  [d |-> 3, p |-> <<60999, 20000>>, e |-> <<974910, 1086952, 1174299, 1253196, 1349127, 1487771>>, f |-> <<50000, 200000, 400000, 599999, 800000, 950000>>, m |-> 1213319849],
  [d |-> 4, p |-> <<2001000, 0>>, e |-> <<1898094, 1947573, 1984352, 2016400, 2054038, 2106180>>, f |-> <<50001, 200001, 399999, 599999, 799998, 950000>>, m |-> 2000333373],
  [d |-> 4, p |-> <<500, 0>>, e |-> <<2, 35, 188, 726, 2420>>, f |-> <<196152, 399874, 599696, 799965, 949992>>, m |-> 87348],
  [d |-> 4, p |-> <<100000, 0>>, e |-> <<77929, 87945, 95808, 102946, 111667, 124342>>, f |-> <<49996, 199993, 400004, 600001, 800005, 949999>>, m |-> 99334129],
  [d |-> 5, p |-> <<500, 0>>, e |-> <<-41136, -2513, -398, 398, 2513, 41136>>, f |-> <<50000, 199989, 399995, 600005, 800011, 950000>>, m |-> 0],
  [d |-> 5, p |-> <<400000, 0>>, e |-> <<-1649, -843, -254, 254, 843, 1649>>, f |-> <<49966, 199866, 399813, 600187, 800134, 950034>>, m |-> 0],
  [d |-> 6, p |-> <<-1000000000, 1000000000>>, e |-> <<-900000000, -600000000, -200000000, 200000000, 600000000, 900000000>>, f |-> <<50000, 200000, 400000, 600000, 800000, 950000>>, m |-> 0],
  [d |-> 6, p |-> <<2000, 2002>>, e |-> <<2001>>, f |-> <<500000>>, m |-> 2001000]>>
LawOk(a, b, r) ==        \* a = <<case, seed, N>>, b = edges, r = <<outside the support, counts below the edges>>
  LET cs == Cases[a[1]] IN
  Len(r) = 1 + Len(b) /\ r[1] = 0 /\ \A i \in 1..Len(b) : Loose(r[i + 1], a[3], Int2(cs.f[i]), Int2(1000000))
(* far tails: l = 1 below the edge, 0 above it; edges in 1/1000, probabilities in 10^-9 *)
Tails == <<
  [d |-> 1, p |-> <<0, 1000>>, l |-> 0, e |-> <<3000, 3500, 4000, 4300>>, q |-> <<1349898, 232629, 31671, 8540>>],
  [d |-> 1, p |-> <<0, 1000>>, l |-> 1, e |-> <<-3000, -3500, -4000, -4300>>, q |-> <<1349898, 232629, 31671, 8540>>],
  [d |-> 2, p |-> <<1000, 0>>, l |-> 0, e |-> <<6000, 8000, 10000, 11500>>, q |-> <<2478752, 335463, 45400, 10130>>],
  [d |-> 2, p |-> <<1000, 0>>, l |-> 1, e |-> <<1, 4>>, q |-> <<999500, 3992011>>],
  [d |-> 3, p |-> <<3000, 500>>, l |-> 0, e |-> <<4000, 6000, 8000>>, q |-> <<13753968, 522258, 16318>>],
  [d |-> 3, p |-> <<3000, 500>>, l |-> 1, e |-> <<20, 50>>, q |-> <<10352, 154653>>],
  [d |-> 4, p |-> <<2000, 0>>, l |-> 0, e |-> <<12000, 18000, 22000>>, q |-> <<2478752, 123410, 16702>>],
  [d |-> 4, p |-> <<1000, 0>>, l |-> 0, e |-> <<9000, 16000, 19000>>, q |-> <<2699796, 63342, 13072>>],
  [d |-> 3, p |-> <<500, 2000>>, l |-> 1, e |-> <<1>>, q |-> <<25227121>>],
  [d |-> 5, p |-> <<1000, 0>>, l |-> 0, e |-> <<100000, 2000000, 50000000>>, q |-> <<3182993, 159155, 6366>>],
  [d |-> 5, p |-> <<2000, 0>>, l |-> 0, e |-> <<20000, 100000, 200000>>, q |-> <<1245332, 49993, 12500>>],
  [d |-> 5, p |-> <<2000, 0>>, l |-> 1, e |-> <<-20000, -100000, -200000>>, q |-> <<1245332, 49993, 12500>>],
  [d |-> 6, p |-> <<0, 1000>>, l |-> 1, e |-> <<1>>, q |-> <<1000000>>],
  [d |-> 6, p |-> <<0, 1000>>, l |-> 0, e |-> <<999>>, q |-> <<1000000>>]>>
TailOk(a, b, r) == LET cs == Tails[a[1]] IN Len(r) = Len(b) /\ \A i \in 1..Len(b) : Loose(r[i], a[3], Int2(cs.q[i]), Int2(1000000000))
(* independence of consecutive values: the four quadrants around the median are equally likely *)
PairOk(a, r) == Len(r) = 4 /\ \A i \in 1..4 : Loose(r[i], a[3], One, Int2(4))
(* ---- parameters: 1..5 as above, 6 Normal, 7 Exponential, 8 Gamma, 9 Chi2, 10 t, 11 Uniform, 12 UniformInt; in 1/1000 (n, r: whole) *)
BadPar(d, x, y) ==
  CASE d = 1 -> x < 0 \/ x > 1000 [] d = 2 -> x < 0 \/ y < 0 \/ y > 1000 [] d = 3 -> x <= 0 [] d = 4 -> x <= 0 \/ x > 1000
    [] d = 5 -> x <= 0 \/ y <= 0 \/ y > 1000 [] d = 6 -> y <= 0 [] d = 7 -> x < 0 [] d = 8 -> x <= 0 \/ y <= 0
    [] d = 9 -> x <= 0 [] d = 10 -> x <= 0 [] d = 11 -> x > y [] d = 12 -> x >= y
Two(d) == d \in {2, 5, 6, 8, 11, 12}
Legal(op, a, b) == CASE op = "law" -> b = Cases[a[1]].e [] op = "tail" -> b = Tails[a[1]].e [] op = "make" -> a[1] # 7 \/ a[2] # 0 [] OTHER -> TRUE
DoR(op, a, b, out, r) ==
  /\ last' = Ev(op, a, b, <<>>, out, r)
  /\ IF op = "make" /\ BadPar(a[1], a[2], a[3]) THEN out = "error"
     ELSE /\ out = "ok"
          /\ CASE op = "make" -> r = (IF Two(a[1]) THEN <<a[2], a[3]>> ELSE <<a[2]>>)     \* the parameters can be read back
               [] op = "cdf" -> CdfOk(a, r)
               [] op = "ext" -> Len(r) = 1 /\ Support(a, r[1])
               [] op = "large" -> LargeOk(a, r)
               [] op = "law" -> LawOk(a, b, r)
               [] op = "tail" -> TailOk(a, b, r)
               [] op = "pair" -> PairOk(a, r)
               [] op = "extc" -> r = <<0>>           \* r = <<number of values that are not finite or outside the support>>
=============================================================================
