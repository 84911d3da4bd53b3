----------------------------- MODULE MC_Rational -----------------------------
(***************************************************************************)
(* Every pair of unreduced fractions with small parts: the results are in     *)
(* lowest terms and satisfy the field and order laws; pairs are emitted.      *)
(***************************************************************************)
EXTENDS Rational, TLC, Json
CONSTANT B
VARIABLES p, q
Parts == (0 - B)..B
MInit == objs = None /\ last = Nothing /\ p \in Parts \X (Parts \ {0}) /\ q \in {<<0 - B, 0 - B>>}
MNext == \E n \in Parts, d \in Parts \ {0} : q = <<0 - B, 0 - B>> /\ q' = <<n, d>> /\ UNCHANGED <<p, vars>>
MSpec == MInit /\ [][MNext]_<<p, q, vars>>
Lowest(f) == f[2] > 0 /\ Gcd(Abs(f[1]), f[2]) = 1
Laws == LET x == Frac(p[1], p[2])
            y == Frac(q[1], q[2])
        IN /\ Lowest(x) /\ p[1] * x[2] = p[2] * x[1]
           /\ Lowest(RAdd(x, y)) /\ Lowest(RSub(x, y)) /\ Lowest(RMul(x, y))
           /\ RSub(RAdd(x, y), y) = x /\ RAdd(x, y) = RAdd(y, x) /\ RMul(x, y) = RMul(y, x)
           /\ (y[1] # 0 => Lowest(RDiv(x, y)) /\ RMul(RDiv(x, y), y) = x)
           /\ RSub(x, y) = RAdd(x, RMul(<<-1, 1>>, y))
           /\ (Diff(x, y) = 0) = (x = y) /\ (Diff(x, y) < 0) = (RSub(x, y)[1] < 0)
Emit == PrintT(ToJson([p |-> p', q |-> q']))
=============================================================================
