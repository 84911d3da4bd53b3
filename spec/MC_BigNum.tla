----------------------------- MODULE MC_BigNum -----------------------------
(***************************************************************************)
(* Design: sign, length and a fixed array of Cap digits.  For every pair of   *)
(* representable numbers the array algorithms (carry propagation inside the   *)
(* array, magnitude comparison, borrow, sign rules, canonical zero) agree     *)
(* with BigDec, and BigDec agrees with integer arithmetic.  Every pair is     *)
(* emitted (as digits) for replay.                                          *)
(***************************************************************************)
EXTENDS BigNum, TLC, Json
CONSTANT Step1
VARIABLES x, y
RECURSIVE Power(_)
Power(n) == IF n = 0 THEN 1 ELSE Base * Power(n - 1)
Lim == Power(Cap) - 1
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o DigitsOf(n \div Base)
Big(n) == IF n < 0 THEN Mk(-1, DigitsOf(0 - n)) ELSE Mk(1, DigitsOf(n))
(* ---- the array representation ---- *)
Repr(v) == [e |-> [i \in 1..Cap |-> Dig(v.d, i)], n |-> Len(v.d), s |-> IF v.s < 0 THEN -1 ELSE 1]
Abst(r) == Mk(r.s, SubSeq(r.e, 1, r.n))
Shrink(e, n) == Len(Trim(SubSeq(e, 1, n)))
RAdd(p, q) == LET m == MaxI(p.n, q.n)
                  sum == Carry([i \in 1..m |-> p.e[i] + q.e[i]])
              IN [e |-> [i \in 1..Cap |-> Dig(sum, i)], n |-> IF m < Cap /\ Dig(sum, m + 1) # 0 THEN m + 1 ELSE m, s |-> p.s]
RECURSIVE RCmp(_, _, _)
RCmp(p, q, i) == IF i = 0 THEN 0 ELSE IF p.e[i] # q.e[i] THEN (IF p.e[i] > q.e[i] THEN 1 ELSE -1) ELSE RCmp(p, q, i - 1)
RMag(p, q) == IF p.n # q.n THEN (IF p.n > q.n THEN 1 ELSE -1) ELSE RCmp(p, q, p.n)
RECURSIVE RSub(_, _)
RSub(p, q) == IF RMag(p, q) < 0 THEN [RSub(q, p) EXCEPT !.s = -1]
              ELSE LET d == Carry([i \in 1..p.n |-> p.e[i] - q.e[i]])
                       e == [i \in 1..Cap |-> Dig(d, i)]
                   IN [e |-> e, n |-> Shrink(e, p.n), s |-> 1]
RPlus(p, q) == IF p.s = q.s THEN RAdd(p, q) ELSE IF p.s < 0 THEN RSub(q, p) ELSE RSub(p, q)
RMinus(p, q) == IF p.s = q.s THEN (IF p.s < 0 THEN RSub(q, p) ELSE RSub(p, q)) ELSE RAdd(p, q)
RCompare(p, q) == IF p.s # q.s THEN (IF p.s > q.s THEN 1 ELSE -1) ELSE p.s * RMag(p, q)
MInit == /\ objs = None /\ last = Nothing
         /\ x \in {k \in (0 - Lim)..Lim : k % Step1 \in {0, 1} \/ Abs(k) > Lim - 3 \/ Abs(k) < 3} /\ y = 0 - Lim
MNext == y < Lim /\ y' = y + 1 /\ UNCHANGED <<x, vars>>
MSpec == MInit /\ [][MNext]_<<x, y, vars>>
Agrees == /\ BAdd(Big(x), Big(y)) = Big(x + y) /\ BSub(Big(x), Big(y)) = Big(x - y)
          /\ BMul(Big(x), Big(y)) = Big(x * y)
          /\ BCmp(Big(x), Big(y)) = (IF x > y THEN 1 ELSE IF x < y THEN -1 ELSE 0)
Canon(r) == (r.n = 0 => r.s = 1) /\ (r.n > 0 => r.e[r.n] # 0) /\ \A i \in (r.n + 1)..Cap : r.e[i] = 0
Arrays == LET p == Repr(Big(x))
              q == Repr(Big(y))
          IN /\ Abs(x + y) <= Lim => Abst(RPlus(p, q)) = Big(x + y) /\ Canon(RPlus(p, q))
             /\ Abs(x - y) <= Lim => Abst(RMinus(p, q)) = Big(x - y) /\ Canon(RMinus(p, q))
             /\ RCompare(p, q) = BCmp(Big(x), Big(y))
Emit == PrintT(ToJson([x |-> Text(Big(x')), y |-> Text(Big(y'))]))
=============================================================================
