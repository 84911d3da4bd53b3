------------------------------- MODULE BigDec -------------------------------
(***************************************************************************)
(* Exact integers of any size: [s |-> -1, 0 or 1, d |-> base-B digits, least  *)
(* significant first, no leading zero].  Zero is [s |-> 0, d |-> <<>>].       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Util
CONSTANT Base
Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Top(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Last0(d) == IF d = <<>> THEN 0 ELSE IF d[Len(d)] # 0 THEN Len(d) ELSE Top({i \in DOMAIN d : d[i] # 0})
Trim(d) == SubSeq(d, 1, Last0(d))
Mk(s, d) == LET t == Trim(d) IN IF t = <<>> THEN [s |-> 0, d |-> <<>>] ELSE [s |-> s, d |-> t]
Zero == Mk(0, <<>>)
RECURSIVE Spill(_)
Spill(c) == IF c = 0 THEN <<>> ELSE <<c % Base>> \o Spill(c \div Base)
(* normalise the digits with carries; floor division: borrows too *)
Carry(d) == LET f == FoldLeft(LAMBDA t, x : [o |-> Append(t.o, (x + t.c) % Base), c |-> (x + t.c) \div Base], [o |-> <<>>, c |-> 0], d)
            IN f.o \o Spill(f.c)
CmpAt(x, y, n) == LET i == FoldLeft(LAMBDA t, j : IF Dig(x, j) # Dig(y, j) THEN j ELSE t, 0, [j \in 1..n |-> j])
                  IN IF i = 0 THEN 0 ELSE IF Dig(x, i) > Dig(y, i) THEN 1 ELSE -1
CmpMag(x, y) == CmpAt(x, y, MaxI(Len(x), Len(y)))
AddMag(x, y) == Carry([i \in 1..MaxI(Len(x), Len(y)) |-> Dig(x, i) + Dig(y, i)])
SubMag(x, y) == Carry([i \in 1..Len(x) |-> x[i] - Dig(y, i)])                           \* x >= y
BCmp(x, y) == IF x.s # y.s THEN (IF x.s > y.s THEN 1 ELSE -1)
              ELSE IF x.s = 0 THEN 0 ELSE x.s * CmpMag(x.d, y.d)
BNeg(x) == [x EXCEPT !.s = 0 - @]
BAbs(x) == [x EXCEPT !.s = @ * @]
BAdd(x, y) == IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
              ELSE IF x.s = y.s THEN Mk(x.s, AddMag(x.d, y.d))
              ELSE LET c == CmpMag(x.d, y.d) IN
                   IF c = 0 THEN Zero ELSE IF c > 0 THEN Mk(x.s, SubMag(x.d, y.d)) ELSE Mk(y.s, SubMag(y.d, x.d))
BSub(x, y) == BAdd(x, BNeg(y))
Conv(x, y, k) ==                    \* sum of x[j] * y[k - j + 1]
  FoldLeft(LAMBDA t, j : t + (x[j] * y[k - j + 1]), 0, [i \in 1..(MinI(Len(x), k) + 1 - MaxI(1, k + 1 - Len(y))) |-> i - 1 + MaxI(1, k + 1 - Len(y))])
BMul(x, y) == IF x.s = 0 \/ y.s = 0 THEN Zero
              ELSE Mk(x.s * y.s, Carry([k \in 1..(Len(x.d) + Len(y.d) - 1) |-> Conv(x.d, y.d, k)]))
One == Mk(1, <<1>>)
=============================================================================
