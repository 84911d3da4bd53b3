---------------------------- MODULE LazySegTree ----------------------------
(***************************************************************************)
(* Design-level specification of the lazy segment tree: one node per segment *)
(* in heap order, each with its aggregates and at most one pending           *)
(* "multiply then add" tag.  It must implement the plain array of SegTree:   *)
(* the invariant Refines states that each lazy query returns what the array  *)
(* semantics returns, in every reachable tag configuration.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Util
CONSTANTS N, Depth
Adds == {3}
Muls == {-1, 0, 2}
VARIABLES arr, node, n
vars == <<arr, node, n>>
Nodes == 1..(4 * N)
E0 == [mn |-> 0, mx |-> 0, sm |-> 0, m |-> 1, a |-> 0]

Mid(l, r) == (l + r) \div 2
RECURSIVE Build(_, _, _, _)
Build(nd, o, l, r) ==
  IF l = r THEN [nd EXCEPT ![o] = [mn |-> arr[l + 1], mx |-> arr[l + 1], sm |-> arr[l + 1], m |-> 1, a |-> 0]]
  ELSE LET x == Build(nd, 2 * o, l, Mid(l, r))
           y == Build(x, 2 * o + 1, Mid(l, r) + 1, r)
       IN [y EXCEPT ![o] = [mn |-> MinI(y[2*o].mn, y[2*o+1].mn), mx |-> MaxI(y[2*o].mx, y[2*o+1].mx),
                             sm |-> y[2*o].sm + y[2*o+1].sm, m |-> 1, a |-> 0]]
(* compose the tag (m, a) below an existing tag *)
Tag(t, m, a) == [t EXCEPT !.m = @ * m, !.a = @ * m + a]
Apply(t, l, r) == LET lo == t.mn * t.m + t.a
                      hi == t.mx * t.m + t.a
                  IN [mn |-> MinI(lo, hi), mx |-> MaxI(lo, hi), sm |-> t.sm * t.m + t.a * (r - l + 1), m |-> 1, a |-> 0]
Push(nd, o, l, r) ==
  LET t == nd[o]
      x == [nd EXCEPT ![o] = Apply(t, l, r)]
  IN IF l = r THEN x
     ELSE [x EXCEPT ![2*o] = Tag(@, t.m, t.a), ![2*o+1] = Tag(@, t.m, t.a)]
Pull(nd, o) == [nd EXCEPT ![o].mn = MinI(nd[2*o].mn, nd[2*o+1].mn),
                          ![o].mx = MaxI(nd[2*o].mx, nd[2*o+1].mx),
                          ![o].sm = nd[2*o].sm + nd[2*o+1].sm]
RECURSIVE Upd(_, _, _, _, _, _, _, _)
Upd(nd, o, l, r, lv, rv, m, a) ==
  LET p == Push(nd, o, l, r) IN
  IF lv <= l /\ r <= rv THEN [p EXCEPT ![o] = Tag(@, m, a)]
  ELSE LET x == IF lv <= Mid(l, r) THEN Upd(p, 2*o, l, Mid(l, r), lv, rv, m, a) ELSE p
           y == IF rv > Mid(l, r) THEN Upd(x, 2*o+1, Mid(l, r)+1, r, lv, rv, m, a) ELSE x
           z == Push(Push(y, 2*o, l, Mid(l, r)), 2*o+1, Mid(l, r)+1, r)
       IN Pull(z, o)
(* a query returns the updated tree and the value *)
RECURSIVE Qry(_, _, _, _, _, _, _)
Qry(nd, o, l, r, lv, rv, k) ==
  LET p == Push(nd, o, l, r) IN
  IF lv <= l /\ r <= rv THEN <<p, IF k = 1 THEN p[o].mx ELSE IF k = 2 THEN p[o].mn ELSE p[o].sm>>
  ELSE IF rv <= Mid(l, r) THEN Qry(p, 2*o, l, Mid(l, r), lv, rv, k)
  ELSE IF lv > Mid(l, r) THEN Qry(p, 2*o+1, Mid(l, r)+1, r, lv, rv, k)
  ELSE LET x == Qry(p, 2*o, l, Mid(l, r), lv, rv, k)
           y == Qry(x[1], 2*o+1, Mid(l, r)+1, r, lv, rv, k)
       IN <<y[1], IF k = 1 THEN MaxI(x[2], y[2]) ELSE IF k = 2 THEN MinI(x[2], y[2]) ELSE x[2] + y[2]>>

Init == /\ arr \in {[i \in 1..N |-> IF i % 2 = 0 THEN i ELSE 0 - i]}
        /\ node = Build([o \in Nodes |-> E0], 1, 0, N - 1)
        /\ n = 0
Ivals == {p \in (0..N-1) \X (0..N-1) : p[1] <= p[2]}
Update == \E p \in Ivals : \E t \in (({1} \X Adds) \cup (Muls \X {0})) :
    /\ n < Depth /\ n' = n + 1
    /\ node' = Upd(node, 1, 0, N - 1, p[1], p[2], t[1], t[2])
    /\ arr' = [i \in 1..N |-> IF p[1] + 1 <= i /\ i <= p[2] + 1 THEN arr[i] * t[1] + t[2] ELSE arr[i]]
Query == \E p \in Ivals : \E k \in 1..3 :
    /\ node' = Qry(node, 1, 0, N - 1, p[1], p[2], k)[1]
    /\ UNCHANGED <<arr, n>>
Next == Update \/ Query
Spec == Init /\ [][Next]_vars

ASum(v) == FoldLeft(LAMBDA x, y : x + y, 0, v)
AMax(v) == FoldLeft(LAMBDA x, y : IF y > x THEN y ELSE x, v[1], v)
AMin(v) == FoldLeft(LAMBDA x, y : IF y < x THEN y ELSE x, v[1], v)
Refines == \A p \in Ivals :
  LET v == SubSeq(arr, p[1] + 1, p[2] + 1) IN
    /\ Qry(node, 1, 0, N - 1, p[1], p[2], 1)[2] = AMax(v)
    /\ Qry(node, 1, 0, N - 1, p[1], p[2], 2)[2] = AMin(v)
    /\ Qry(node, 1, 0, N - 1, p[1], p[2], 3)[2] = ASum(v)
=============================================================================
