----------------------------- MODULE MC_LinADT -----------------------------
EXTENDS LinADT, TLC, Json
CONSTANTS MaxLen, Illegal
V == {1, 2}
Calls ==
  LET C(op, a) == [op |-> op, a |-> a, b |-> <<>>] IN
  UNION { LET n == Len(seq[s]) IN
    { C(op, <<s>>) : op \in {"new", "clear", "size", "stl", "conv", "drain"} }
    \cup (IF n > 0 THEN { C("pushself", <<s>>) } ELSE {})
    \cup (IF n > 0 \/ Illegal THEN { C(op, <<s>>) : op \in {"pop", "last", "clast"} \cup (IF Fifo THEN {"first", "cfirst"} ELSE {}) } ELSE {})
    \cup (IF n > 0 \/ Illegal THEN { C(op, <<s, x>>) : op \in {"lastset"} \cup (IF Fifo THEN {"firstset"} ELSE {}), x \in V } ELSE {})
    \cup { C("push", <<s, x>>) : x \in V }
    \cup { C("copy", <<s, t>>) : t \in Slots \ {s} }
    \cup { C(op, <<s, t>>) : op \in {"assign", "cmp"}, t \in Slots } : s \in Slots }
MNext == \E c \in Calls : Do(c.op, c.a, c.b)
MSpec == Init /\ [][MNext]_vars
View == seq
Emit == (\A s \in Slots : Len(seq'[s]) <= MaxLen) /\ PrintT(ToJson([s |-> seq, t |-> seq', e |-> last']))
(* order property stated on the history of one container: what is removed next *)
OrderOk == \A s \in Slots : Len(seq[s]) > 0 =>
   /\ Fifo => Removal(seq[s])[1] = seq[s][1]
   /\ ~Fifo => Removal(seq[s])[1] = seq[s][Len(seq[s])]
   /\ Len(Rest(seq[s])) = Len(seq[s]) - 1
=============================================================================
