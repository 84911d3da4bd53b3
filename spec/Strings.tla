------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* Property C22: first occurrence of a pattern, and edit distance.  Strings   *)
(* are sequences of bytes.  "kmp": a = <<start>> (negative: a position beyond  *)
(* any string), b = <<length of base>> \o base \o pattern;                    *)
(* "edit": b = <<length of the first string>> \o first \o second.             *)
(* Very long strings are given by formulas (MC_Strings checks, for all small    *)
(* parameters, that the closed forms below agree with the definitions):        *)
(* "kmpx": a = <<start, n, p, m, q>>: base x^p y x^(n-p-1), pattern x^m y x^q,   *)
(*         or x^m when q = -1;                                                  *)
(* "editx": a = <<k, n, m>>: k = 0: x^n and y^m, 1: x^n and x^m, 2: 1..n and     *)
(*         2..n+1 (cyclic, period 200), 3: x^n z^m and y^n z^m                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Util
VARIABLE last
vars == <<last>>
Init == last = Nothing
Start == last' = Nothing
Fst(b) == SubSeq(b, 2, b[1] + 1)
Snd(b) == SubSeq(b, b[1] + 2, Len(b))
(* 0-based positions *)
Occurs(base, pat, i) == i + Len(pat) <= Len(base) /\ \A k \in 1..Len(pat) : base[i + k] = pat[k]
FirstFrom(base, pat, i) ==
  LET R == i..(Len(base) - Len(pat)) IN
  IF ~\E k \in R : Occurs(base, pat, k) THEN -1
  ELSE CHOOSE k \in R : Occurs(base, pat, k) /\ \A j \in i..(k - 1) : ~Occurs(base, pat, j)
First(base, pat, start) == IF start < 0 THEN -1 ELSE FirstFrom(base, pat, start)
(* edit distance, row by row: Row[j] = distance of s[1..i] and t[1..j] *)
Min3(x, y, z) == MinI(x, MinI(y, z))
Idx(n) == [j \in 1..n |-> j]
(* row i of the table, entries 0..Len(t), from row i - 1 *)
NextRow(row, s, t, i) ==
  FoldLeft(LAMBDA acc, j : Append(acc, Min3(acc[j] + 1, row[j + 1] + 1, row[j] + (IF s[i] = t[j] THEN 0 ELSE 1))), <<i>>, Idx(Len(t)))
RowOf(s, t, n) == FoldLeft(LAMBDA row, i : NextRow(row, s, t, i), [j \in 1..(Len(t) + 1) |-> j - 1], Idx(n))
Edit(s, t) == RowOf(s, t, Len(s))[Len(t) + 1]
XText(n, p) == [i \in 1..n |-> IF i = p + 1 THEN 2 ELSE 1]
XPat(m, q) == IF q < 0 THEN [i \in 1..m |-> 1] ELSE [i \in 1..(m + 1 + q) |-> IF i = m + 1 THEN 2 ELSE 1]
KmpX(start, n, p, m, q) ==
  IF q >= 0 THEN (IF p - m >= start /\ p + 1 + q <= n THEN p - m ELSE -1)
  ELSE IF start > n \/ start + m > n THEN -1
  ELSE IF start + m <= p \/ m = 0 THEN start
  ELSE LET f == MaxI(start, p + 1) IN IF f + m <= n THEN f ELSE -1
EditA(k, n, m) == CASE k = 0 -> [i \in 1..n |-> 1] [] k = 1 -> [i \in 1..n |-> 1] [] k = 2 -> [i \in 1..n |-> i % 200]
                    [] OTHER -> [i \in 1..(n + m) |-> IF i <= n THEN 1 ELSE 3]
EditB(k, n, m) == CASE k = 0 -> [i \in 1..m |-> 2] [] k = 1 -> [i \in 1..m |-> 1] [] k = 2 -> [i \in 1..n |-> (i + 1) % 200]
                    [] OTHER -> [i \in 1..(n + m) |-> IF i <= n THEN 2 ELSE 3]
EditX(k, n, m) == CASE k = 0 -> MaxI(n, m) [] k = 1 -> Abs(n - m) [] k = 2 -> MinI(n, 2) [] OTHER -> n
Do(op, a, b) ==
  last' = Ev(op, a, b, <<>>, "ok",
     CASE op = "kmp" -> <<First(Fst(b), Snd(b), a[1])>>
       [] op = "kmpx" -> <<KmpX(a[1], a[2], a[3], a[4], a[5])>>
       [] op = "editx" -> <<EditX(a[1], a[2], a[3])>>
       [] op = "edit" -> <<Edit(Fst(b), Snd(b))>>)
=============================================================================
