---------------------------- MODULE MC_AssocADT ----------------------------
EXTENDS AssocADT, TLC, Json
CONSTANTS MaxLen, Illegal, NK
K == 1..NK
V == {1, 2}
Lits == IF Pairs THEN {<<>>} \cup {<<x, y>> : x \in K, y \in V} \cup {<<1, y, k, z, 1, w>> : y \in V, k \in K, z \in V, w \in V}
        ELSE {<<>>} \cup {<<x, y>> : x \in K, y \in K} \cup {<<x, y, x>> : x \in K, y \in K}
Calls ==
  LET C(op, a, b) == [op |-> op, a |-> a, b |-> b] IN
  UNION { LET v == ent[s] IN
    { C(op, <<s>>, <<>>) : op \in {"new", "clear", "size", "iter", "citer", "riter", "criter", "stl", "conv"} }
    \cup { C(op, <<s>>, b) : op \in {"newi", "newstl"}, b \in Lits }
    \cup { C("copy", <<s, t>>, <<>>) : t \in Slots \ {s} }
    \cup { C(op, <<s, t>>, <<>>) : op \in {"assign", "cmp"}, t \in Slots }
    \cup { C(op, <<s, k>>, <<>>) : op \in {"contains"} \cap (IF Kind = "multimap" THEN {} ELSE {"contains"}), k \in K }
    \cup { C("insert", <<s, k>>, <<>>) : k \in (IF Pairs THEN {} ELSE K) }
    \cup { C("erase", <<s, k>>, <<>>) : k \in (IF Kind = "multiset" /\ ~Illegal THEN Keys(v) ELSE K) }
    \cup { C("count", <<s, k>>, <<>>) : k \in (IF Unique THEN {} ELSE K) }
    \cup { C("find", <<s, k>>, <<>>) : k \in (IF Kind = "multimap" THEN K ELSE {}) }
    \cup { C(op, <<s, k>>, <<>>) : op \in {"get", "cget"}, k \in (IF Kind # "map" THEN {} ELSE IF Illegal THEN K ELSE Keys(v)) }
    \cup { C("getset", <<s, k, x>>, <<>>) : x \in V, k \in (IF Kind # "map" THEN {} ELSE IF Illegal THEN K ELSE Keys(v)) }
    \cup { C("at", <<s, k>>, <<>>) : k \in (IF Kind = "map" THEN K ELSE {}) }
    \cup { C(op, <<s, k, x>>, <<>>) : op \in {"set", "atset"}, x \in V, k \in (IF Kind = "map" THEN K ELSE {}) } : s \in Slots }
MNext == \E c \in Calls : Do(c.op, c.a, c.b)
MSpec == Init /\ [][MNext]_vars
View == ent
Emit == (\A s \in Slots : Len(ent'[s]) <= MaxLen) /\ PrintT(ToJson([s |-> ent, t |-> ent', e |-> last']))
SortedOk == \A s \in Slots : \A i \in 1..(Len(ent[s]) - 1) :
   IF Unique THEN ent[s][i][1] < ent[s][i + 1][1] ELSE ent[s][i][1] <= ent[s][i + 1][1]
=============================================================================
