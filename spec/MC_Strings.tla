----------------------------- MODULE MC_Strings -----------------------------
(***************************************************************************)
(* The definitions used by Strings against independent ones, for all strings  *)
(* of bounded length: edit distance is the shortest path in the graph of       *)
(* single edits, a metric, symmetric under reversal; the table-driven scan of   *)
(* Knuth, Morris and Pratt (see KMP.tla) is checked separately.                *)
(***************************************************************************)
EXTENDS Strings, FiniteSets, Json
CONSTANTS Sym, N
VARIABLES s, t, n
Strs(k) == UNION {[1..i -> 1..Sym] : i \in 0..k}
MInit == Init /\ s \in Strs(N) /\ t \in Strs(N) /\ n = 0
(* grow the ball around s edit by edit until it reaches t *)
Del(x, i) == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
Ins(x, i, c) == SubSeq(x, 1, i - 1) \o <<c>> \o SubSeq(x, i, Len(x))
Rep(x, i, c) == [x EXCEPT ![i] = c]
Edits(x) == {Del(x, i) : i \in 1..Len(x)} \cup {Ins(x, i, c) : i \in 1..(Len(x) + 1), c \in 1..Sym} \cup {Rep(x, i, c) : i \in 1..Len(x), c \in 1..Sym}
RECURSIVE Ball(_, _)
Ball(x, k) == IF k = 0 THEN {x} ELSE LET b == TLCEval(Ball(x, k - 1)) IN b \cup UNION {Edits(y) : y \in b}
MNext == n = 0 /\ n' = 1 /\ UNCHANGED <<vars, s, t>>
MSpec == MInit /\ [][MNext]_<<vars, s, t, n>>
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Shortest == LET e == Edit(s, t) IN e >= 0 /\ (e <= 3 => t \in Ball(s, e)) /\ ((e > 0 /\ e <= 4) => t \notin Ball(s, e - 1))
Metric == /\ Edit(s, t) = Edit(t, s) /\ (Edit(s, t) = 0 <=> s = t) /\ Edit(Rev(s), Rev(t)) = Edit(s, t)
          /\ Edit(s, t) <= MaxI(Len(s), Len(t)) /\ Edit(s, t) >= Abs(Len(s) - Len(t))
FirstIs == \A i \in 0..(N + 1) : LET f == First(s, t, i) IN
   IF f = -1 THEN \A k \in i..N : ~Occurs(s, t, k) ELSE f >= i /\ Occurs(s, t, f) /\ \A k \in i..(f - 1) : ~Occurs(s, t, k)
(* the closed forms for very long strings *)
ASSUME \A c1 \in 0..8, c2 \in 1..7, c3 \in 0..7, c4 \in 0..8, c5 \in -1..3 :
         (c3 < c2) => KmpX(c1, c2, c3, c4, c5) = First(XText(c2, c3), XPat(c4, c5), c1)
ASSUME \A c1 \in 0..3, c2 \in 0..8, c3 \in 0..8 : EditX(c1, c2, c3) = Edit(EditA(c1, c2, c3), EditB(c1, c2, c3))
Emit == PrintT(ToJson([s |-> s, t |-> t]))
=============================================================================
