-------------------------------- MODULE Util --------------------------------
(* Records shared by every specification of the library. *)
EXTENDS Integers, Sequences
(* one observed call: name, integer arguments, outcome, integer results *)
Ev(op, a, b, c, out, r) == [op |-> op, a |-> a, b |-> b, c |-> c, out |-> out, r |-> r]
Nothing == Ev("reset", <<>>, <<>>, <<>>, "ok", <<>>)
Bit(p) == IF p THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN 0 - x ELSE x
MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
=============================================================================
