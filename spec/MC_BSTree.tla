----------------------------- MODULE MC_BSTree -----------------------------
(* Enumerates every insert/erase(/pre/suf) history of length Depth over N nodes. *)
EXTENDS BSTree, TLC, Json
CONSTANTS N, Depth, Queries
VARIABLE hist
MInit == /\ rank = [x \in 1..N |-> 10 * x] /\ val = [x \in 1..N |-> x] /\ in = [t \in Trees |-> {}]
         /\ last = Nothing /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E x \in 1..N : \/ Do("insert", <<0, x>>, <<>>) \/ Do("erase", <<0, x>>, <<>>)
                            \/ Queries /\ (Do("pre", <<0, x>>, <<>>) \/ Do("suf", <<0, x>>, <<>>))
         /\ hist' = Append(hist, last')
MSpec == MInit /\ [][MNext]_<<vars, hist>>
Emit == Len(hist') = Depth => PrintT(ToJson([h |-> [i \in 1..Depth |-> [op |-> hist'[i].op, a |-> hist'[i].a]]]))
Mutual == \A x \in in[0] : (PreOf(0, x) # 0 => SufOf(0, PreOf(0, x)) = x) /\ (SufOf(0, x) # 0 => PreOf(0, SufOf(0, x)) = x)
=============================================================================
