------------------------------- MODULE BSTree -------------------------------
(***************************************************************************)
(* Property C06.  Nodes (numbered) carry a rank and a value and are stored   *)
(* in at most one of the trees.  The abstract state of a tree is the set of   *)
(* nodes it stores; the shape is not observable.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Util
CONSTANT Trees
VARIABLES rank, val,  \* functions from created nodes
          in,         \* in[t]: nodes stored in tree t
          last
vars == <<rank, val, in, last>>
Empty == [x \in {} |-> 0]
Init == rank = Empty /\ val = Empty /\ in = [t \in Trees |-> {}] /\ last = Nothing
Start == rank' = Empty /\ val' = Empty /\ in' = [t \in Trees |-> {}] /\ last' = Nothing
Free(x) == x \in DOMAIN rank /\ \A t \in Trees : x \notin in[t]
Distinct(t) == Cardinality({rank[x] : x \in in[t]}) = Cardinality(in[t])
Below(t, x) == {y \in in[t] : rank[y] < rank[x]}
Above(t, x) == {y \in in[t] : rank[y] > rank[x]}
(* no stored node is the answer 0 (null) *)
PreOf(t, x) == IF Below(t, x) = {} THEN 0 ELSE CHOOSE y \in Below(t, x) : \A z \in Below(t, x) : rank[z] <= rank[y]
SufOf(t, x) == IF Above(t, x) = {} THEN 0 ELSE CHOOSE y \in Above(t, x) : \A z \in Above(t, x) : rank[z] >= rank[y]
FindOf(t, k) == {y \in in[t] : rank[y] = k}
Obs(op, a, r) == UNCHANGED <<rank, val, in>> /\ last' = Ev(op, a, <<>>, <<>>, "ok", r)
Sorted(t) == SetToSortSeq(in[t], LAMBDA x, y : rank[x] < rank[y])
(* op "all": every stored node in rank order with find, pre, suf and value *)
AllOf(t) == LET o == Sorted(t)
                n == Len(o)
            IN FlattenSeq([i \in 1..n |-> <<o[i], IF i = 1 THEN 0 ELSE o[i - 1], IF i = n THEN 0 ELSE o[i + 1], val[o[i]]>>])
Do(op, a, b) ==
  CASE op = "mk" -> /\ a[1] > 0 /\ (Free(a[1]) \/ a[1] \notin DOMAIN rank)
                    /\ rank' = [x \in DOMAIN rank \cup {a[1]} |-> IF x = a[1] THEN a[2] ELSE rank[x]]
                    /\ val' = [x \in DOMAIN val \cup {a[1]} |-> IF x = a[1] THEN a[3] ELSE val[x]]
                    /\ UNCHANGED in /\ last' = Ev(op, a, b, <<>>, "ok", <<>>)
    [] op = "insert" -> Free(a[2]) /\ in' = [in EXCEPT ![a[1]] = @ \cup {a[2]}] /\ UNCHANGED <<rank, val>>
                        /\ last' = Ev(op, a, b, <<>>, "ok", <<>>)
    [] op = "erase" -> a[2] \in in[a[1]] /\ in' = [in EXCEPT ![a[1]] = @ \ {a[2]}] /\ UNCHANGED <<rank, val>>
                        /\ last' = Ev(op, a, b, <<>>, "ok", <<>>)
    [] op = "setval" -> a[1] \in DOMAIN val /\ val' = [val EXCEPT ![a[1]] = a[2]] /\ UNCHANGED <<rank, in>>
                        /\ last' = Ev(op, a, b, <<>>, "ok", <<>>)
    [] op = "val" -> a[1] \in DOMAIN val /\ Obs(op, a, <<rank[a[1]], val[a[1]]>>)
    [] op = "find" -> IF FindOf(a[1], a[2]) = {} THEN Obs(op, a, <<0>>)
                      ELSE \E y \in FindOf(a[1], a[2]) : Obs(op, a, <<y>>)
    [] op = "pre" -> a[2] \in in[a[1]] /\ Distinct(a[1]) /\ Obs(op, a, <<PreOf(a[1], a[2])>>)
    [] op = "suf" -> a[2] \in in[a[1]] /\ Distinct(a[1]) /\ Obs(op, a, <<SufOf(a[1], a[2])>>)
    [] op = "all" -> Distinct(a[1]) /\ Obs(op, a, AllOf(a[1]))
=============================================================================
