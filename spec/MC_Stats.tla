------------------------------ MODULE MC_Stats ------------------------------
(***************************************************************************)
(* Design of the statistics: the two-pass accumulation (sum, mean, then the    *)
(* sum of squared deviations, element by element, over exact rationals with    *)
(* common denominator n) for every small data set.  Its result is the spread   *)
(* the conformance specification uses; shift, scale and sample laws hold, and   *)
(* the tolerance predicates accept the exact value and reject a wrong one.     *)
(***************************************************************************)
EXTENDS Stats, Json
CONSTANTS V, L
VARIABLES s, i, acc, phase
mvars == <<s, i, acc, phase>>
all == <<vars, mvars>>
Vals == (0 - V)..V
Data == UNION {[1..n -> Vals] : n \in 1..L}
MInit == Init /\ s \in Data /\ i = 0 /\ acc = 0 /\ phase = "sum"
n == Len(s)
RECURSIVE ISum(_, _)
ISum(f, k) == IF k = 0 THEN 0 ELSE f[k] + ISum(f, k - 1)
Dev(j) == (n * s[j]) - ISum(s, n)                      \* n times the deviation from the mean
Step1 == phase = "sum" /\ i < n /\ i' = i + 1 /\ acc' = acc + s[i + 1] /\ UNCHANGED <<s, phase>>
Turn == phase = "sum" /\ i = n /\ i' = 0 /\ acc' = 0 /\ phase' = "dev" /\ UNCHANGED s
Step2 == phase = "dev" /\ i < n /\ i' = i + 1 /\ acc' = acc + (Dev(i + 1) * Dev(i + 1)) /\ UNCHANGED <<s, phase>>
Finish == phase = "dev" /\ i = n /\ phase' = "done" /\ UNCHANGED <<s, i, acc>>
MNext == (Step1 \/ Turn \/ Step2 \/ Finish) /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_all
Big(f) == Nums(f, Len(f))
Partial == phase = "sum" => acc = ISum(s, i)
Done == phase = "done" =>
   /\ Int2(acc) = BMul(Int2(n), Spread(Big(s)))         \* two passes = n (n S2 - S^2)
   /\ acc >= 0 /\ (acc = 0 <=> \A j \in 1..n : s[j] = s[1])
   /\ Spread(Big([j \in 1..n |-> s[j] + 7])) = Spread(Big(s))
   /\ Spread(Big([j \in 1..n |-> 0 - (3 * s[j])])) = BMul(Int2(9), Spread(Big(s)))
   /\ Spread(Big([j \in 1..n |-> s[n + 1 - j]])) = Spread(Big(s))
   /\ LET v == acc \div n                               \* n^2 times the variance
          fixed == ((v * 1000000) \div (n * n))
      IN /\ Near(Int2(fixed), Spread(Big(s)), Int2(n * n))
         /\ ~Near(Int2(fixed + 5), Spread(Big(s)), Int2(n * n)) /\ ~Near(Int2(fixed - 5), Spread(Big(s)), Int2(n * n))
         /\ NearRoot(Int2(1000000 * n), Int2(n * n), One) /\ ~NearRoot(Int2((1000000 * n) + 5), Int2(n * n), One) /\ ~NearRoot(Int2((1000000 * n) - 5), Int2(n * n), One)
Emit == phase' # "dev" \/ i' # 0 \/ phase # "sum" \/ PrintT(ToJson([s |-> s]))
=============================================================================
