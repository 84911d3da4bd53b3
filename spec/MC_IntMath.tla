----------------------------- MODULE MC_IntMath -----------------------------
(***************************************************************************)
(* Design of the algorithms behind IntMath as step-by-step state machines,    *)
(* with their loop invariants, for all small arguments:                      *)
(*   gcd   alternating in-place remainders of a and b                        *)
(*   pow   square and multiply; the base is squared only while exponent bits   *)
(*         remain, so no intermediate value exceeds the result                *)
(*   comb  one array row of Pascal's triangle, updated in place               *)
(* and agreement of the BigDec definitions with integer arithmetic.  The      *)
(* finished runs are emitted for replay.                                     *)
(***************************************************************************)
EXTENDS IntMath, Json
CONSTANTS N, NB, NE, NC
VARIABLES alg, A, B, p, q, k, row, pc
mvars == <<alg, A, B, p, q, k, row, pc>>
all == <<vars, mvars>>
(* integer definitions *)
Divs(x, y) == x # 0 /\ y % x = 0
NGcd(x, y) == IF x = 0 /\ y = 0 THEN 0 ELSE CHOOSE d \in 1..(x + y) : Divs(d, x) /\ Divs(d, y) /\ \A e \in 1..(x + y) : (Divs(e, x) /\ Divs(e, y)) => e <= d
RECURSIVE NPow(_, _)
NPow(x, e) == IF e = 0 THEN 1 ELSE x * NPow(x, e - 1)
RECURSIVE NC2(_, _)
NC2(n, r) == IF r = 0 THEN 1 ELSE IF n = 0 THEN 0 ELSE NC2(n - 1, r) + NC2(n - 1, r - 1)
MInit == /\ Init
         /\ \/ /\ alg = "gcd" /\ A \in 0..N /\ B \in 0..N /\ p = A /\ q = B /\ pc = (IF B = 0 THEN "end" ELSE "a") /\ k = 0 /\ row = <<>>
            \/ /\ alg = "pow" /\ A \in (0 - NB)..NB /\ B \in 1..NE /\ p = A /\ q = A /\ k = B - 1 /\ row = <<>> /\ pc = (IF B = 1 THEN "end" ELSE "loop")
            \/ /\ alg = "comb" /\ A \in 1..NC /\ B \in 1..NC /\ B <= A \div 2 /\ p = 0 /\ q = 1 /\ k = 0 /\ row = [j \in 1..B |-> 1] /\ pc = (IF A = B THEN "end" ELSE "loop")
Gcd1 == alg = "gcd" /\ pc = "a" /\ p' = p % q /\ pc' = (IF p % q = 0 THEN "end" ELSE "b") /\ UNCHANGED <<q, k, row>>
Gcd2 == alg = "gcd" /\ pc = "b" /\ q' = q % p /\ pc' = (IF q % p = 0 THEN "end" ELSE "a") /\ UNCHANGED <<p, k, row>>
(* p: result, q: current base, k: remaining exponent *)
Pow1 == alg = "pow" /\ pc = "loop" /\ p' = (IF k % 2 = 1 THEN p * q ELSE p) /\ k' = k \div 2
        /\ q' = (IF k > 1 THEN q * q ELSE q) /\ pc' = (IF k > 1 THEN "loop" ELSE "end") /\ UNCHANGED row
(* p: finished rounds, q: column *)
Comb1 == alg = "comb" /\ pc = "loop" /\ row' = [row EXCEPT ![q] = @ + (IF q = 1 THEN 1 ELSE row[q - 1])]
         /\ q' = (IF q = B THEN 1 ELSE q + 1) /\ p' = (IF q = B THEN p + 1 ELSE p) /\ pc' = (IF q = B /\ p + 1 = A - B THEN "end" ELSE "loop") /\ UNCHANGED k
Finish == pc = "end" /\ pc' = "done" /\ UNCHANGED <<p, q, k, row>>
MNext == (Gcd1 \/ Gcd2 \/ Pow1 \/ Comb1 \/ Finish) /\ UNCHANGED <<vars, alg, A, B>>
MSpec == MInit /\ [][MNext]_all /\ WF_all(MNext)
Terminates == <>(pc = "done")
Result == CASE alg = "gcd" -> p + q [] alg = "pow" -> p [] OTHER -> row[B]
(* ---- loop invariants ---- *)
GcdInv == alg = "gcd" => (IF p = 0 \/ q = 0 THEN p + q = NGcd(A, B) ELSE NGcd(p, q) = NGcd(A, B))
PowInv == alg = "pow" => /\ (pc = "loop" => p * NPow(q, k) = NPow(A, B))
                         /\ Abs(p) <= Abs(NPow(A, B)) /\ Abs(q) <= Abs(NPow(A, B))
CombInv == alg = "comb" => \A j \in 1..B : /\ row[j] = NC2((IF j < q THEN p + 1 ELSE p) + j, j)
                                          /\ row[j] <= NC2(A, B)
Correct == pc \in {"end", "done"} =>
    CASE alg = "gcd" -> Result = NGcd(A, B) [] alg = "pow" -> Result = NPow(A, B) [] OTHER -> Result = NC2(A, B)
(* ---- the any-size definitions agree with integer arithmetic ---- *)
BigAgrees == pc = "end" =>
    CASE alg = "gcd" -> /\ BGcd(Int2(A), Int2(B)) = Int2(NGcd(A, B))
                        /\ (B > 0 => BMod(Int2(A), Int2(B)) = Int2(A % B) /\ BDiv(Int2(A), Int2(B)) = Int2(A \div B))
                        /\ (A + B > 0 => BLcm(Int2(A), Int2(B)) = Int2((A * B) \div NGcd(A, B)))
      [] alg = "pow" -> Pow(Int2(A), B) = Int2(NPow(A, B)) /\ InPow(Int2(A), B, Int2(100)) = (Abs(NPow(A, B)) <= 100)
      [] OTHER -> /\ Choose(A, B) = Int2(NC2(A, B)) /\ Row(A, B)[B] = Int2(NC2(A, B))
                  /\ BMul(Choose(A, B), Fact(B)) = Falling(A, B) /\ BMul(Falling(A, B), Fact(A - B)) = Fact(A)
Emit == pc # "end" \/ PrintT(ToJson([alg |-> alg, x |-> A, y |-> B]))
=============================================================================
