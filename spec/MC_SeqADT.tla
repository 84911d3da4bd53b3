----------------------------- MODULE MC_SeqADT -----------------------------
(* Every transition of SeqADT over two containers of bounded length. *)
EXTENDS SeqADT, TLC, Json
CONSTANTS MaxLen, Kind, Illegal   \* Kind: "vector" or "list"; Illegal: also emit the calls that must fail
V == {1, 2}
Ix(n) == IF Illegal THEN ((0 - 2)..(n + 2)) \cup {2147483647, 0 - 2147483647} ELSE 0..(n - 1)
Only(k, S) == IF Kind = k THEN S ELSE {}
Calls ==
  LET C(op, a) == [op |-> op, a |-> a, b |-> <<>>] IN
  UNION { LET n == Len(seq[s]) IN
    { C(op, <<s>>) : op \in {"clear", "size", "iter", "citer", "riter", "criter", "stl", "conv"}
                         \cup Only("vector", {"print"}) \cup Only("list", {"sort", "reverse"}) }
    \cup (IF n > 0 \/ Illegal THEN { C(op, <<s>>) : op \in {"pop", "first", "last", "cfirst", "clast"} \cup Only("list", {"popfront"}) } ELSE {})
    \cup (IF n > 0 \/ Illegal THEN { C(op, <<s, x>>) : op \in {"firstset", "lastset"}, x \in V } ELSE {})
    \cup { C(op, <<s, x>>) : op \in {"push"} \cup Only("list", {"pushfront"}), x \in V }
    \cup { C(op, <<s, i>>) : op \in {"at", "cat", "erase"} \cup Only("vector", {"get", "cget"}), i \in Ix(n) }
    \cup { C(op, <<s, i, x>>) : op \in {"atset"} \cup Only("vector", {"set", "getset"}), i \in Ix(n), x \in V }
    \cup { C("pushself", <<s, i>>) : i \in 0..(n - 1) }
    \cup { C("insself", <<s, i, j>>) : i \in 0..n, j \in 0..(n - 1) }
    \cup { C("insert", <<s, i, x>>) : i \in (Ix(n) \cup 0..n), x \in V }
    \cup { C("copy", <<s, t>>) : t \in Slots \ {s} }
    \cup { C(op, <<s, t>>) : op \in {"assign", "cmp"} \cup Only("vector", {"io"}), t \in Slots }
    \cup { C("merge", <<s, t>>) : t \in {u \in Slots : Kind = "list" /\ Sorted(seq[s]) /\ Sorted(seq[u])} }
    \cup { C("newn", <<s, k, x>>) : k \in 0..2, x \in V } \cup { C("newd", <<s, k>>) : k \in {0} }
    \cup { C("new", <<s>>) } : s \in Slots }
MNext == \E c \in Calls : Do(c.op, c.a, c.b)
MSpec == Init /\ [][MNext]_vars
View == seq
Bound == \A s \in Slots : Len(seq[s]) <= MaxLen
Bound2 == \A s \in Slots : Len(seq'[s]) <= MaxLen
Emit == Bound2 /\ PrintT(ToJson([s |-> seq, t |-> seq', e |-> last']))
(* sanity of the specification *)
SortOk == \A s \in Slots : LET w == Sort(seq[s]) IN
   /\ Sorted(w) /\ Len(w) = Len(seq[s])
   /\ \A x \in V : Len(SelectSeq(w, LAMBDA y : y = x)) = Len(SelectSeq(seq[s], LAMBDA y : y = x))
RoundTrip == \A s \in Slots : Strings \/ Parse(Render(seq[s])) = <<TRUE, seq[s]>>
CmpOk == \A s, t \in Slots : /\ LexCmp(seq[s], seq[t]) = 0 - LexCmp(seq[t], seq[s])
                             /\ (LexCmp(seq[s], seq[t]) = 0) <=> (seq[s] = seq[t])
=============================================================================
