------------------------------- MODULE LinADT -------------------------------
(***************************************************************************)
(* Properties C02 and C04 for Stack and Queue.  Each slot holds a container; *)
(* the abstract state is the sequence of held elements, oldest first.  A     *)
(* Queue removes at the old end, a Stack at the young end.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Util
CONSTANTS Slots, Fifo
VARIABLES seq, last
vars == <<seq, last>>
Init == seq = [s \in Slots |-> <<>>] /\ last = Nothing
Start == seq' = [s \in Slots |-> <<>>] /\ last' = Nothing
LexCmp(v, w) ==      \* -1, 0, 1: by the first position that differs, else by length
  LET i == SelectInSeq([j \in 1..MinI(Len(v), Len(w)) |-> v[j] # w[j]], LAMBDA d : d)
  IN IF i # 0 THEN (IF v[i] < w[i] THEN -1 ELSE 1)
     ELSE IF Len(v) = Len(w) THEN 0 ELSE IF Len(v) < Len(w) THEN -1 ELSE 1
CmpBits(k) == <<Bit(k = 0), Bit(k # 0), Bit(k < 0), Bit(k <= 0), Bit(k > 0), Bit(k >= 0)>>
Upd(op, a, b, s, v, r) == seq' = [seq EXCEPT ![s] = v] /\ last' = Ev(op, a, b, <<>>, "ok", r)
Obs(op, a, b, r) == UNCHANGED seq /\ last' = Ev(op, a, b, <<>>, "ok", r)
Err(op, a, b) == UNCHANGED seq /\ last' = Ev(op, a, b, <<>>, "error", <<>>)
Try(op, a, b, legal, s, v, r) == IF legal THEN Upd(op, a, b, s, v, r) ELSE Err(op, a, b)
Look(op, a, b, legal, r) == IF legal THEN Obs(op, a, b, r) ELSE Err(op, a, b)
(* the order in which the elements would be removed *)
Removal(v) == IF Fifo THEN v ELSE Reverse(v)
Rest(v) == IF Fifo THEN SubSeq(v, 2, Len(v)) ELSE SubSeq(v, 1, Len(v) - 1)
(* ends that can be read: a Queue shows both, a Stack its top *)
EndOf(op, v) == IF op \in {"first", "cfirst", "firstset"} THEN 1 ELSE Len(v)
Do(op, a, b) ==
  LET s == a[1]
      v == seq[s]
      n == Len(v)
      x == a[2]
  IN CASE op = "new"    -> Upd(op, a, b, s, <<>>, <<>>)
       [] op = "newstl" -> Upd(op, a, b, s, b, <<>>)
       [] op = "fill"   -> x >= 0 /\ Upd(op, a, b, s, v \o [i \in 1..x |-> i % 1000], <<>>)      \* x pushes
       [] op = "copy"   -> Upd(op, a, b, s, seq[x], <<>>)
       [] op = "assign" -> Upd(op, a, b, s, seq[x], <<>>)
       [] op = "push"   -> Upd(op, a, b, s, Append(v, x), <<>>)
       [] op = "pushself" -> n > 0 /\ Upd(op, a, b, s, Append(v, v[n]), <<>>)   \* push(last/top)
       [] op = "pop"    -> Try(op, a, b, n > 0, s, Rest(v), <<Removal(v)[1]>>)
       [] op \in {"first", "cfirst", "last", "clast"} -> Look(op, a, b, n > 0, <<v[EndOf(op, v)]>>)
       [] op \in {"firstset", "lastset"} -> Try(op, a, b, n > 0, s, [v EXCEPT ![EndOf(op, v)] = x], <<>>)
       [] op = "clear"  -> Upd(op, a, b, s, <<>>, <<>>)
       [] op = "size"   -> Obs(op, a, b, <<n, Bit(n = 0)>>)
       [] op \in {"stl", "conv"} -> Obs(op, a, b, Removal(v))
       [] op = "drain"  -> Upd(op, a, b, s, <<>>, Removal(v))
       [] op = "cmp"    -> Obs(op, a, b, CmpBits(LexCmp(v, seq[x])))
=============================================================================
