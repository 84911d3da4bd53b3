------------------------------ MODULE SegTree ------------------------------
(***************************************************************************)
(* Property C05.  A client owns a few segment trees (slots).  The abstract  *)
(* state of a tree is the plain array it represents; every update is applied *)
(* element by element, every query is computed from the array.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Util

CONSTANT Slots
VARIABLES trees,   \* trees[s]: the array tree s stands for (<<>>: no tree)
          last     \* the call just made and its outcome

vars == <<trees, last>>

Init == trees = [s \in Slots |-> <<>>] /\ last = Nothing

ASum(v) == FoldLeft(LAMBDA x, y : x + y, 0, v)
AMax(v) == FoldLeft(LAMBDA x, y : IF y > x THEN y ELSE x, v[1], v)
AMin(v) == FoldLeft(LAMBDA x, y : IF y < x THEN y ELSE x, v[1], v)
Seg(s, l, r) == SubSeq(trees[s], l + 1, r + 1)
InRange(s, l, r) == 0 <= l /\ l <= r /\ r < Len(trees[s])

Map(v, l, r, F(_)) == [i \in 1..Len(v) |-> IF l + 1 <= i /\ i <= r + 1 THEN F(v[i]) ELSE v[i]]

New(s, v) ==
  /\ Len(v) > 0
  /\ trees' = [trees EXCEPT ![s] = v]
  /\ last' = Ev("new", <<s>>, v, <<>>, "ok", <<>>)

Copy(d, s) ==
  /\ trees[s] # <<>> /\ d # s
  /\ trees' = [trees EXCEPT ![d] = trees[s]]
  /\ last' = Ev("copy", <<d, s>>, <<>>, <<>>, "ok", <<>>)

Add(s, l, r, x) ==
  /\ InRange(s, l, r)
  /\ trees' = [trees EXCEPT ![s] = Map(@, l, r, LAMBDA y : y + x)]
  /\ last' = Ev("add", <<s, l, r, x>>, <<>>, <<>>, "ok", <<>>)

Mul(s, l, r, x) ==
  /\ InRange(s, l, r)
  /\ trees' = [trees EXCEPT ![s] = Map(@, l, r, LAMBDA y : y * x)]
  /\ last' = Ev("mul", <<s, l, r, x>>, <<>>, <<>>, "ok", <<>>)

Query(op, s, l, r, F(_)) ==
  /\ InRange(s, l, r)
  /\ UNCHANGED trees
  /\ last' = Ev(op, <<s, l, r>>, <<>>, <<>>, "ok", <<F(Seg(s, l, r))>>)

QMax(s, l, r) == Query("max", s, l, r, AMax)
QMin(s, l, r) == Query("min", s, l, r, AMin)
QSum(s, l, r) == Query("sum", s, l, r, ASum)

Size(s) ==
  /\ trees[s] # <<>>
  /\ UNCHANGED trees
  /\ last' = Ev("size", <<s>>, <<>>, <<>>, "ok", <<Len(trees[s])>>)

(* every interval at once, for the kind k (1 max, 2 min, 3 sum) *)
AllOf(v, F(_)) == FlattenSeq([l \in 1..Len(v) |-> [j \in 1..(Len(v) - l + 1) |-> F(SubSeq(v, l, l + j - 1))]])
QAll(s, k) ==
  /\ trees[s] # <<>>
  /\ UNCHANGED trees
  /\ last' = Ev("qall", <<s, k>>, <<>>, <<>>, "ok",
                 IF k = 1 THEN AllOf(trees[s], AMax)
                 ELSE IF k = 2 THEN AllOf(trees[s], AMin) ELSE AllOf(trees[s], ASum))

Start == trees' = [s \in Slots |-> <<>>] /\ last' = Nothing
Do(op, a, b) ==
  CASE op = "new"  -> New(a[1], b)
    [] op = "copy" -> Copy(a[1], a[2])
    [] op = "add"  -> Add(a[1], a[2], a[3], a[4])
    [] op = "mul"  -> Mul(a[1], a[2], a[3], a[4])
    [] op = "max"  -> QMax(a[1], a[2], a[3])
    [] op = "min"  -> QMin(a[1], a[2], a[3])
    [] op = "sum"  -> QSum(a[1], a[2], a[3])
    [] op = "size" -> Size(a[1])
    [] op = "qall" -> QAll(a[1], a[2])
=============================================================================
