----------------------------- MODULE MC_RandSeq -----------------------------
(***************************************************************************)
(* Design: a generator is a seed and a position in the engine's stream, every  *)
(* call consumes some engine outputs.  This machine refines RandSeq: a call's   *)
(* result depends on the generator's own history only.  The stream is an        *)
(* arbitrary (here: pairing) function of seed and position.  Transitions are     *)
(* emitted for replay.                                                       *)
(***************************************************************************)
EXTENDS RandSeq, Json
CONSTANTS Gens, Seeds, Depth
VARIABLES st
ops == <<st, gens, memo, last>>
Stream(s, p) == ((s * 7) + (p * 11)) % 5
Uses(op) == IF op = "int1" THEN 1 ELSE 2
Out(g, op) == IF Uses(op) = 1 THEN <<Stream(st[g][1], st[g][2])>> ELSE <<Stream(st[g][1], st[g][2]), Stream(st[g][1], st[g][2] + 1)>>
MInit == Init /\ st = None
Next(op, a, r) == Legal(op, a, <<>>) /\ DoR(op, a, <<>>, "ok", r)
Steps == Len(memo)
MNext == \/ \E g \in Gens, s \in Seeds : ~Live(g) /\ st' = Put(st, g, <<s, 0>>) /\ Next("new", <<g, s>>, <<>>)
         \/ \E g, h \in Gens : ~Live(g) /\ Live(h) /\ st' = Put(st, g, st[h]) /\ Next("copy", <<g, h>>, <<>>)
         \/ \E g \in Gens, s \in Seeds : Live(g) /\ st' = Put(st, g, <<s, 0>>) /\ Next("seed", <<g, s>>, <<>>)
         \/ \E g \in Gens, op \in {"int1", "dbl0"} : /\ Live(g) /\ Len(gens[g]) <= Depth
               /\ st' = [st EXCEPT ![g] = <<@[1], @[2] + Uses(op)>>]
               /\ LET a == IF op = "int1" THEN <<g, 10>> ELSE <<g>>
                      h == Append(gens[g], Sig(op, a, <<>>))
                  IN (h \in DOMAIN memo => memo[h] = Out(g, op))          \* asserted by Reproducible below
                     /\ Next(op, a, Out(g, op))
MSpec == MInit /\ [][MNext]_<<vars, st>>
(* the refinement: whenever the machine could take a call, RandSeq allows its result *)
Reproducible == \A g \in DOMAIN gens : \A op \in {"int1", "dbl0"} :
    LET h == Append(gens[g], Sig(op, IF op = "int1" THEN <<g, 10>> ELSE <<g>>, <<>>)) IN h \in DOMAIN memo => memo[h] = Out(g, op)
View == <<st, gens, memo>>
Emit == PrintT(ToJson([s |-> ToString(<<gens, memo>>), t |-> ToString(<<gens', memo'>>), e |-> last']))
=============================================================================
