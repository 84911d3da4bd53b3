------------------------------ MODULE MC_Dist ------------------------------
(***************************************************************************)
(* Design of sampling by inversion in finite precision: probabilities are      *)
(* rounded down to multiples of 1/Q, so the thresholds can saturate below 1;    *)
(* the scan for the first threshold above the input u must still end, inside    *)
(* the support, for every u, and the values' shares are the probabilities.      *)
(* Laws: Binomial(n, num/den) and NegativeBinomial(n, num/den).  Also: the       *)
(* laws used by Dist satisfy their recurrences, and the sum of independent       *)
(* NegativeBinomial(1) and (n-1) variables has law NegativeBinomial(n) (the      *)
(* basis for sampling large parameters in parts).                           *)
(***************************************************************************)
EXTENDS Dist, Json
CONSTANTS Q, MaxN, Den
VARIABLES d, n, num, u, x, th, pc
mvars == <<d, n, num, u, x, th, pc>>
ToInt(b) == LET f[i \in 0..Len(b.d)] == IF i = 0 THEN 0 ELSE f[i - 1] * Base + b.d[Len(b.d) + 1 - i] IN f[Len(b.d)]
K == 40
RECURSIVE NPw(_, _)
NPw(b, e) == IF e = 0 THEN 1 ELSE b * NPw(b, e - 1)
RECURSIVE NC(_, _)
NC(m, r) == IF r = 0 THEN 1 ELSE IF r > m THEN 0 ELSE NC(m - 1, r) + NC(m - 1, r - 1)
(* P(X = v) rounded down to 1/Q *)
RECURSIVE NegFix(_, _, _)
NegFix(r, v, t) == IF v = 0 THEN t ELSE (NegFix(r, v - 1, t) * (Den - num) * (r + v - 1)) \div (Den * v)
Pmf(v) == IF d = 2 THEN (Q * NC(n, v) * NPw(num, v) * NPw(Den - num, n - v)) \div NPw(Den, n)
          ELSE NegFix(n, v, (Q * NPw(num, n)) \div NPw(Den, n))
MInit == /\ Init /\ d \in {2, 5} /\ n \in 1..MaxN /\ num \in 1..(Den - 1) /\ u \in 0..(Q - 1)
         /\ x = 0 /\ pc = "scan" /\ th = Pmf(0)
(* the scan ends when the input is below the threshold, at the end of the support, or when the threshold no longer grows beyond the mode *)
Stop == u < th \/ (d = 2 /\ x = n) \/ (d = 5 /\ Pmf(x) = 0 /\ x * num >= n * (Den - num))
Scan == pc = "scan" /\ ~Stop /\ x' = x + 1 /\ th' = th + Pmf(x + 1) /\ UNCHANGED pc
End == pc = "scan" /\ Stop /\ pc' = "end" /\ UNCHANGED <<x, th>>
MNext == (Scan \/ End) /\ UNCHANGED <<vars, d, n, num, u>>
MSpec == MInit /\ [][MNext]_<<vars, mvars>> /\ WF_<<vars, mvars>>(MNext)
Terminates == <>(pc = "end")
RECURSIVE CumP(_)
CumP(v) == IF v < 0 THEN 0 ELSE CumP(v - 1) + Pmf(v)
InSupport == x >= 0 /\ (d = 2 => x <= n) /\ (d = 5 => x <= K)
InverseOk == pc = "end" => /\ u >= CumP(x - 1)
                         /\ (u < CumP(x) \/ (d = 2 /\ x = n) \/ (d = 5 /\ Pmf(x) = 0))
(* laws *)
W(m, k) == LawOf(5, m, num, Den, k).c
P5(m, k) == IF k = 0 THEN W(m, 0)[1] ELSE BSub(W(m, k)[k + 1], W(m, k - 1)[k])
RECURSIVE Convol(_, _)
Convol(v, j) == IF j > v THEN Zero ELSE BAdd(BMul(P5(1, j), P5(n - 1, v - j)), Convol(v, j + 1))
Small(a, b) == Leq(BAbs(BSub(a, b)), BMul(Mk(1, <<0, 0, 1>>), S24))                       \* equal up to 1e-16, both scaled by 10^48
Laws == (u = 0 /\ pc = "end") =>
   IF d = 2 THEN LET l == LawOf(2, n, num, Den, n) IN
        /\ l.c[n + 1] = l.t
        /\ \A v \in 0..n : l.c[v + 1] = BAdd(BMul(Int2(Den - num), LawOf(2, n - 1, num, Den, v).c[v + 1]),
                                           IF v = 0 THEN Zero ELSE BMul(Int2(num), LawOf(2, n - 1, num, Den, v - 1).c[v]))
   ELSE n > 1 => \A v \in 0..4 : Small(BMul(P5(n, v), S24), Convol(v, 0))
Emit == pc' # "end" \/ u # 0 \/ PrintT(ToJson([d |-> d, n |-> n, num |-> num, den |-> Den]))
=============================================================================
