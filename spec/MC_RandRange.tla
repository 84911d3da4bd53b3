---------------------------- MODULE MC_RandRange ----------------------------
(***************************************************************************)
(* Design of the scaling of engine outputs, for every output of a W-bit        *)
(* engine and every range of I-bit signed integers:                          *)
(*   nextInt    min + raw mod (max - min), span and sum in wide arithmetic      *)
(*   nextDouble raw / 2^W rounded to a P-bit mantissa, scaled, rounded again,    *)
(*              and never the excluded upper bound                           *)
(* The classes of (range, output) are emitted for replay in the real code.     *)
(***************************************************************************)
EXTENDS RandRange, FiniteSets, Json
CONSTANTS W, I, P
VARIABLES raw, lo, hi
mvars == <<raw, lo, hi>>
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Ints == (0 - Two(I - 1))..(Two(I - 1) - 1)
MInit == Init /\ lo \in Ints /\ hi \in Ints /\ raw = 0
MNext == raw < Two(W) - 1 /\ raw' = raw + 1 /\ UNCHANGED <<vars, lo, hi>>
MSpec == MInit /\ [][MNext]_<<vars, mvars>>
IntOf(x) == lo + (x % (hi - lo))
IntInRange == lo < hi => lo <= IntOf(raw) /\ IntOf(raw) < hi
(* every value is reached, and the numbers of outputs that reach two values differ by at most one *)
Hits(v) == Cardinality({x \in 0..(Two(W) - 1) : IntOf(x) = v})
Reachable == (raw = 0 /\ lo < hi) => \A v \in lo..(hi - 1) : Hits(v) >= 1 /\ \A w \in lo..(hi - 1) : Hits(v) - Hits(w) <= 1
(* reals as multiples of 2^-P; rounding to nearest, ties up *)
Grid == Two(P)
Rnd(num, den) == ((2 * num) + den) \div (2 * den)                  \* nearest integer to num / den
Unit == Rnd(raw * Grid, Two(W))                                    \* raw / 2^W on the grid: can be 1.0
Raw1 == Rnd(Unit * (hi - lo), Grid)                                 \* scaled, on the grid of the result
RealOf == IF lo + Raw1 >= hi THEN hi - 1 ELSE lo + Raw1            \* hi - 1: the largest number below hi
RealInRange == lo < hi => lo <= RealOf /\ RealOf < hi
Needed == lo < hi => lo + Raw1 <= hi                                          \* the correction is one unit at most
Class == IF raw = 0 THEN 0 ELSE IF raw = 1 THEN 1 ELSE IF raw = Two(W) - 1 THEN 5 ELSE IF raw = Two(W) - 2 THEN 4 ELSE IF raw = Two(W - 1) THEN 3 ELSE 2
Emit == (raw' \in {1, 5, Two(W - 1), Two(W) - 2, Two(W) - 1}) => PrintT(ToJson([lo |-> lo, hi |-> hi, cls |-> Class']))
=============================================================================
