------------------------------ MODULE AssocADT ------------------------------
(***************************************************************************)
(* Properties C03 and C04 for Map, Set, MultiMap and MultiSet.  The abstract *)
(* state of a container is the sequence of its entries <<key, value>> in     *)
(* increasing key order (value 0 for sets), equal keys of a MultiMap in      *)
(* order of insertion.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Util
CONSTANTS Slots, Kind        \* "map", "set", "multimap", "multiset"
VARIABLES ent, last
vars == <<ent, last>>
Init == ent = [s \in Slots |-> <<>>] /\ last = Nothing
Start == ent' = [s \in Slots |-> <<>>] /\ last' = Nothing
Pairs == Kind \in {"map", "multimap"}
Unique == Kind \in {"map", "set"}

Keys(v) == {v[i][1] : i \in DOMAIN v}
Has(v, k) == \E i \in DOMAIN v : v[i][1] = k
Val(v, k) == v[CHOOSE i \in DOMAIN v : v[i][1] = k][2]
Put(v, p) == LET i == SelectLastInSeq(v, LAMBDA q : q[1] <= p[1])
             IN SubSeq(v, 1, i) \o <<p>> \o SubSeq(v, i + 1, Len(v))
Add(v, p) == IF Unique /\ Has(v, p[1]) THEN v ELSE Put(v, p)     \* an existing key wins
Replace(v, k, x) == [i \in DOMAIN v |-> IF v[i][1] = k THEN <<k, x>> ELSE v[i]]
Set(v, k, x) == IF Has(v, k) THEN Replace(v, k, x) ELSE Put(v, <<k, x>>)
Without(v, k) == SelectSeq(v, LAMBDA p : p[1] # k)
Of(b) == IF Pairs THEN [i \in 1..(Len(b) \div 2) |-> <<b[2 * i - 1], b[2 * i]>>] ELSE [i \in 1..Len(b) |-> <<b[i], 0>>]
Build(b) == FoldLeft(Add, <<>>, Of(b))
Flat(v) == IF Pairs THEN [i \in 1..(2 * Len(v)) |-> v[(i + 1) \div 2][2 - (i % 2)]] ELSE [i \in DOMAIN v |-> v[i][1]]
LexCmp(v, w) ==      \* -1, 0, 1: by the first position that differs, else by length
  LET i == SelectInSeq([j \in 1..MinI(Len(v), Len(w)) |-> v[j] # w[j]], LAMBDA d : d)
  IN IF i # 0 THEN (IF v[i] < w[i] THEN -1 ELSE 1)
     ELSE IF Len(v) = Len(w) THEN 0 ELSE IF Len(v) < Len(w) THEN -1 ELSE 1
CmpBits(k) == <<Bit(k = 0), Bit(k # 0), Bit(k < 0), Bit(k <= 0), Bit(k > 0), Bit(k >= 0)>>
(* the set of values of key k, in increasing order *)
ValuesOf(v, k) == SetToSortSeq({v[i][2] : i \in {j \in DOMAIN v : v[j][1] = k}}, LAMBDA x, y : x < y)

Upd(op, a, b, s, v, r) == ent' = [ent EXCEPT ![s] = v] /\ last' = Ev(op, a, b, <<>>, "ok", r)
Obs(op, a, b, r) == UNCHANGED ent /\ last' = Ev(op, a, b, <<>>, "ok", r)
Err(op, a, b) == UNCHANGED ent /\ last' = Ev(op, a, b, <<>>, "error", <<>>)
Do(op, a, b) ==
  LET s == a[1]
      v == ent[s]
      k == a[2]
      x == a[3]
  IN CASE op = "new" -> Upd(op, a, b, s, <<>>, <<>>)
       [] op \in {"newi", "newstl"} -> Upd(op, a, b, s, Build(b), <<>>)
       [] op = "range" ->      \* k entries with keys x, x + 1, ..., or all with key x if a[4] = 0 (multi-containers)
            k >= 0 /\ (a[4] = 0 => ~Unique) /\ Upd(op, a, b, s, [i \in 1..k |-> <<IF a[4] = 0 THEN x ELSE x + i - 1, IF Pairs THEN i ELSE 0>>], <<>>)
       [] op \in {"copy", "assign"} -> Upd(op, a, b, s, ent[k], <<>>)
       [] op = "clear" -> Upd(op, a, b, s, <<>>, <<>>)
       [] op = "size"  -> Obs(op, a, b, <<Len(v), Bit(v = <<>>)>>)
       [] op \in {"iter", "citer", "stl", "conv"} -> Obs(op, a, b, Flat(v))
       [] op \in {"riter", "criter"} -> Obs(op, a, b, Flat(Reverse(v)))
       [] op = "cmp"   -> Obs(op, a, b, CmpBits(LexCmp(Flat(v), Flat(ent[k]))))
       [] op = "contains" /\ Kind # "multimap" -> Obs(op, a, b, <<Bit(Has(v, k))>>)
       [] op = "insert" /\ ~Pairs -> Upd(op, a, b, s, Add(v, <<k, 0>>), <<>>)
       [] op = "erase" -> IF Kind = "multiset" /\ ~Has(v, k) THEN Err(op, a, b)
                          ELSE Upd(op, a, b, s, Without(v, k), <<>>)
       [] op = "count" /\ ~Unique -> Obs(op, a, b, <<Len(SelectSeq(v, LAMBDA p : p[1] = k))>>)
       [] op = "find" /\ Kind = "multimap" -> Obs(op, a, b, ValuesOf(v, k))
       [] op \in {"get", "cget"} /\ Kind = "map" -> IF Has(v, k) THEN Obs(op, a, b, <<Val(v, k)>>) ELSE Err(op, a, b)
       [] op = "getset" /\ Kind = "map" -> IF Has(v, k) THEN Upd(op, a, b, s, Set(v, k, x), <<>>) ELSE Err(op, a, b)
       [] op = "at" /\ Kind = "map" -> LET w == IF Has(v, k) THEN v ELSE Set(v, k, 0) IN Upd(op, a, b, s, w, <<Val(w, k)>>)
       [] op \in {"set", "atset"} /\ Kind = "map" -> Upd(op, a, b, s, Set(v, k, x), <<>>)
       [] op = "iteradd" /\ Pairs -> Upd(op, a, b, s, [i \in DOMAIN v |-> <<v[i][1], v[i][2] + k>>], <<>>)
       [] OTHER -> FALSE
=============================================================================
