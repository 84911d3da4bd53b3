----------------------------- MODULE MC_VGraph -----------------------------
(***************************************************************************)
(* Design: each vertex owns an out-list and an in-list, destroying a vertex *)
(* unlinks and releases every incident edge.  TLC checks that the lists      *)
(* always describe VGraph's edge set, and emits every history.              *)
(***************************************************************************)
EXTENDS VGraph, TLC, Json
CONSTANTS N, Depth
VARIABLES hist, ol, il, ne
mv == <<vars, hist, ol, il, ne>>
MInit == /\ vs = [x \in 1..N |-> <<x, 1>>] /\ es = None /\ se = None /\ last = Nothing
         /\ hist = <<>> /\ ol = [x \in 1..N |-> <<>>] /\ il = ol /\ ne = 1
Without(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
MNext ==
  /\ Len(hist) < Depth
  /\ \/ \E x, y \in 1..N : /\ Do("edge", <<ne, x, y, (x + (2 * y)) % 3>>, <<>>) /\ ne' = ne + 1
                           /\ ol' = [ol EXCEPT ![x] = Append(@, ne)] /\ il' = [il EXCEPT ![y] = Append(@, ne)]
     \/ \E x \in 1..N : /\ Do("kill", <<x>>, <<>>) /\ ne' = ne
                        /\ LET gone == ToSet(ol[x]) \cup ToSet(il[x])
                           IN /\ ol' = [y \in 1..N |-> IF y = x THEN <<>> ELSE Without(ol[y], gone)]
                              /\ il' = [y \in 1..N |-> IF y = x THEN <<>> ELSE Without(il[y], gone)]
     \/ \E x \in 1..N : Do("mk", <<x, 5>>, <<>>) /\ UNCHANGED <<ne, ol, il>>
  /\ hist' = Append(hist, last')
MSpec == MInit /\ [][MNext]_mv
Refines == \A x \in 1..N : /\ ToSet(ol[x]) = Out(x) /\ Len(ol[x]) = Cardinality(Out(x))
                           /\ ToSet(il[x]) = Inn(x) /\ Len(il[x]) = Cardinality(Inn(x))
Ends == \A e \in DOMAIN es : V(es[e][1]) /\ V(es[e][2])
Emit == Len(hist') = Depth => PrintT(ToJson([h |-> [i \in 1..Depth |-> [op |-> hist'[i].op, a |-> hist'[i].a]]]))
=============================================================================
