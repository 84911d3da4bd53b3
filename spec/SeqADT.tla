------------------------------- MODULE SeqADT -------------------------------
(***************************************************************************)
(* Properties C01 and C04 for Vector and List.  A client owns a container in *)
(* every slot; the abstract state of a container is a finite sequence of      *)
(* integers (strings and other element types are numbered by the harness).   *)
(* Illegal calls have the outcome "error" (the program ends with a failure    *)
(* status and a diagnostic) and there is no state in which they return.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Util
CONSTANTS Slots, Strings   \* Strings: elements are printed as strings of 20 digits
VARIABLES seq, last
vars == <<seq, last>>
Init == seq = [s \in Slots |-> <<>>] /\ last = Nothing

Start == seq' = [s \in Slots |-> <<>>] /\ last' = Nothing

Idx(s, i) == 0 <= i /\ i < Len(seq[s])
Ins(v, i, x) == SubSeq(v, 1, i) \o <<x>> \o SubSeq(v, i + 1, Len(v))   \* before 0-based index i
Del(v, i) == SubSeq(v, 1, i) \o SubSeq(v, i + 2, Len(v))
Sorted(v) == \A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1]
(* the sorted permutation of v *)
Sort(v) == SortSeq(v, LAMBDA x, y : x < y)
LexCmp(v, w) ==      \* -1, 0, 1: by the first position that differs, else by length
  LET i == SelectInSeq([j \in 1..MinI(Len(v), Len(w)) |-> v[j] # w[j]], LAMBDA d : d)
  IN IF i # 0 THEN (IF v[i] < w[i] THEN -1 ELSE 1)
     ELSE IF Len(v) = Len(w) THEN 0 ELSE IF Len(v) < Len(w) THEN -1 ELSE 1
CmpBits(k) == <<Bit(k = 0), Bit(k # 0), Bit(k < 0), Bit(k <= 0), Bit(k > 0), Bit(k >= 0)>>

(* decimal rendering, the form the stream operators use *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Show(n) == IF Strings THEN [i \in 1..16 |-> 48] \o <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
           ELSE IF n < 0 THEN <<45>> \o Digits(0 - n) ELSE Digits(n)
Render(v) == <<123>> \o FlattenSeq([i \in 1..Len(v) |-> (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o Show(v[i])]) \o <<125>>

(* grammar of Vector input:  { }  |  { int , int , ... }  with blanks anywhere between tokens *)
Blank == {32, 9, 10, 13}
RECURSIVE Skip(_, _)
Skip(t, i) == IF i <= Len(t) /\ t[i] \in Blank THEN Skip(t, i + 1) ELSE i
IsD(t, i) == i <= Len(t) /\ t[i] \in 48..57
RECURSIVE Num(_, _, _)
Num(t, i, n) == IF IsD(t, i) THEN (IF n > 99999999 THEN <<0, 0>> ELSE Num(t, i + 1, n * 10 + (t[i] - 48)))
                ELSE <<i, n>>                          \* <<0, 0>>: does not fit the element type
Bad == <<FALSE, <<>>>>
RECURSIVE Items(_, _, _)
Items(t, i0, acc) ==    \* an integer is expected at i0
  LET i == Skip(t, i0)
      neg == i <= Len(t) /\ t[i] = 45
      plus == i <= Len(t) /\ t[i] = 43
      j == IF neg \/ plus THEN i + 1 ELSE i
  IN IF ~IsD(t, j) THEN Bad
     ELSE LET n == Num(t, j, 0)
              k == Skip(t, n[1])
              acc2 == Append(acc, IF neg THEN 0 - n[2] ELSE n[2])
          IN IF n[1] = 0 \/ k > Len(t) THEN Bad
             ELSE IF t[k] = 125 THEN <<TRUE, acc2>>
             ELSE IF t[k] = 44 THEN Items(t, k + 1, acc2)
             ELSE Bad
Parse(t) ==
  LET i == Skip(t, 1) IN
  IF i > Len(t) \/ t[i] # 123 THEN Bad
  ELSE LET j == Skip(t, i + 1) IN
       IF j <= Len(t) /\ t[j] = 125 THEN <<TRUE, <<>>>> ELSE Items(t, j, <<>>)

-----------------------------------------------------------------------------
Upd(op, a, b, s, v, r) == seq' = [seq EXCEPT ![s] = v] /\ last' = Ev(op, a, b, <<>>, "ok", r)
Obs(op, a, b, r) == UNCHANGED seq /\ last' = Ev(op, a, b, <<>>, "ok", r)
Err(op, a, b) == UNCHANGED seq /\ last' = Ev(op, a, b, <<>>, "error", <<>>)
Try(op, a, b, legal, s, v, r) == IF legal THEN Upd(op, a, b, s, v, r) ELSE Err(op, a, b)
Look(op, a, b, legal, r) == IF legal THEN Obs(op, a, b, r) ELSE Err(op, a, b)

Do(op, a, b) ==
  LET s == a[1]
      v == seq[s]
      n == Len(v)
      x == a[2]
      y == a[3]
  IN CASE op = "new"    -> Upd(op, a, b, s, <<>>, <<>>)
       [] op = "newn"   -> x >= 0 /\ Upd(op, a, b, s, [i \in 1..x |-> y], <<>>)
       [] op = "newd"   -> x >= 0 /\ Upd(op, a, b, s, [i \in 1..x |-> 0], <<>>)     \* n value-initialised elements
       [] op = "newi"   -> Upd(op, a, b, s, b, <<>>)                 \* initializer_list
       [] op = "newstl" -> Upd(op, a, b, s, b, <<>>)                 \* from the STL container
       [] op = "copy"   -> Upd(op, a, b, s, seq[x], <<>>)            \* copy constructor (x # s)
       [] op = "assign" -> Upd(op, a, b, s, seq[x], <<>>)            \* assignment, also to itself
       [] op = "assignstl" -> Upd(op, a, b, s, b, <<>>)
       [] op \in {"get", "cget", "at", "cat"} -> Look(op, a, b, Idx(s, x), <<v[x + 1]>>)
       [] op \in {"first", "cfirst"} -> Look(op, a, b, n > 0, <<v[1]>>)
       [] op \in {"last", "clast"}   -> Look(op, a, b, n > 0, <<v[n]>>)
       [] op \in {"set", "atset", "getset", "itset"} -> Try(op, a, b, Idx(s, x), s, [v EXCEPT ![x + 1] = y], <<>>)
       [] op = "firstset" -> Try(op, a, b, n > 0, s, [v EXCEPT ![1] = x], <<>>)
       [] op = "lastset"  -> Try(op, a, b, n > 0, s, [v EXCEPT ![n] = x], <<>>)
       [] op = "push"     -> Upd(op, a, b, s, Append(v, x), <<>>)
       [] op = "pushfront"-> Upd(op, a, b, s, <<x>> \o v, <<>>)
       [] op = "pushself" -> Try(op, a, b, Idx(s, x), s, Append(v, v[x + 1]), <<>>)          \* c.push(c[x])
       [] op = "insself"  -> Idx(s, y) /\ Try(op, a, b, 0 <= x /\ x <= n, s, Ins(v, x, v[y + 1]), <<>>)
       [] op = "pop"      -> Try(op, a, b, n > 0, s, SubSeq(v, 1, n - 1), <<v[n]>>)
       [] op = "popfront" -> Try(op, a, b, n > 0, s, SubSeq(v, 2, n), <<v[1]>>)
       [] op = "insert"   -> Try(op, a, b, 0 <= x /\ x <= n, s, Ins(v, x, y), <<>>)
       [] op = "erase"    -> Try(op, a, b, Idx(s, x), s, Del(v, x), <<>>)
       [] op = "clear"    -> Upd(op, a, b, s, <<>>, <<>>)
       [] op = "sort"     -> Upd(op, a, b, s, Sort(v), <<>>)
       [] op = "reverse"  -> Upd(op, a, b, s, Reverse(v), <<>>)
       [] op = "merge"    -> /\ Sorted(v) /\ Sorted(seq[x])
                             /\ seq' = IF s = x THEN seq ELSE [seq EXCEPT ![s] = Sort(v \o seq[x]), ![x] = <<>>]
                             /\ last' = Ev(op, a, b, <<>>, "ok", <<>>)
       [] op = "size"     -> Obs(op, a, b, <<n, Bit(n = 0)>>)
       [] op \in {"iter", "citer", "stl", "conv"} -> Obs(op, a, b, v)
       [] op \in {"riter", "criter"} -> Obs(op, a, b, Reverse(v))
       [] op = "iteradd"  -> Upd(op, a, b, s, [i \in 1..n |-> v[i] + x], <<>>)   \* write through iterators
       [] op = "cmp"      -> Obs(op, a, b, CmpBits(LexCmp(v, seq[x])))
       [] op = "print"    -> Obs(op, a, b, Render(v))
       [] op = "io"       -> Upd(op, a, b, s, seq[x], <<>>)          \* s << x through a stream
       [] op = "read"     -> LET p == Parse(b) IN Try(op, a, b, p[1], s, p[2], <<>>)
       [] op = "all"      -> Obs(op, a, b, FlattenSeq([k \in 1..x |-> <<Len(seq[k - 1])>> \o seq[k - 1]]))
=============================================================================
