------------------------------- MODULE DATrie -------------------------------
(***************************************************************************)
(* Design level of the Trie: Aoe's double array with a tail.                *)
(*   b, c : base and check arrays (0 is the root, check -1 = free cell)      *)
(*   t    : stored word endings; base <= -2 of a node is ending -base-2      *)
(*   q    : recycled ending numbers                                          *)
(* Every word ends with code 1.  TLC checks that retrieval and depth-first   *)
(* visiting agree with the set of words (TrieSet) after every history.      *)
(***************************************************************************)
EXTENDS TrieSet, TLC, Json
CONSTANTS Codes, MaxLen, Depth, Cap, Removals
VARIABLES D, hist
dv == <<vars, D, hist>>
W == UNION {[1..n -> Codes] : n \in 0..MaxLen}
Code == {1} \cup Codes
Asc(S) == SetToSortSeq(S, <)
NewDA == [b |-> [i \in 0..Cap |-> IF i = 0 THEN 0 ELSE -1], c |-> [i \in 0..Cap |-> -1], t |-> <<>>, q |-> <<>>]
FirstFit(d, S) == CHOOSE x \in 0..Cap : /\ \A j \in S : d.c[x + j] = -1
                                        /\ \A y \in 0..(x - 1) : \E j \in S : d.c[y + j] # -1
SetCell(d, x, bv, cv) == [d EXCEPT !.b[x] = bv, !.c[x] = cv]
(* store an ending at cell x with parent n *)
PutTail(d, n, x, rest) ==
  IF d.q = <<>> THEN SetCell([d EXCEPT !.t = Append(@, rest)], x, (0 - Len(d.t)) - 2, n)
  ELSE SetCell([d EXCEPT !.t[Head(d.q) + 1] = rest, !.q = Tail(@)], x, (0 - Head(d.q)) - 2, n)
Arcs(d, n) == {i \in Code : d.b[n] + i <= Cap /\ d.c[d.b[n] + i] = n}
RECURSIVE Common(_, _)
Common(u, v) == IF u = <<>> \/ v = <<>> \/ Head(u) # Head(v) THEN 0 ELSE 1 + Common(Tail(u), Tail(v))
RECURSIVE ChainOf(_, _, _)
ChainOf(d, x, s) == IF s = <<>> THEN <<d, x>>
                    ELSE LET f == FirstFit(d, {Head(s)})
                         IN ChainOf([d EXCEPT !.b[x] = f, !.c[f + Head(s)] = x], f + Head(s), Tail(s))
Split(d, x, rest) ==
  LET k == (0 - d.b[x]) - 2
      old == d.t[k + 1]
      p == Common(rest, old)
      ch == ChainOf(d, x, SubSeq(old, 1, p))
      d1 == ch[1]
      y == ch[2]
      co == old[p + 1]
      cn == rest[p + 1]
      f == FirstFit(d1, {co, cn})
      d2 == [d1 EXCEPT !.b[y] = f]
      d3 == IF co = 1 THEN [SetCell(d2, f + co, -1, y) EXCEPT !.q = Append(@, k)]
            ELSE [SetCell(d2, f + co, (0 - k) - 2, y) EXCEPT !.t[k + 1] = SubSeq(old, p + 2, Len(old))]
  IN IF cn = 1 THEN SetCell(d3, f + cn, -1, y) ELSE PutTail(d3, y, f + cn, SubSeq(rest, p + 2, Len(rest)))
RECURSIVE MoveAll(_, _, _, _, _)
MoveAll(d, from, to, js, other) ==   \* move the children js of a node from base `from` to base `to`
  IF js = <<>> THEN <<d, other>>
  ELSE LET o == from + Head(js)
           n == to + Head(js)
           kids == IF d.b[o] > -1 THEN {d.b[o] + i : i \in Arcs(d, o)} ELSE {}
           d1 == [d EXCEPT !.b = [@ EXCEPT ![n] = d.b[o], ![o] = -1],
                           !.c = [i \in 0..Cap |-> IF i = n THEN d.c[o] ELSE IF i = o THEN -1 ELSE IF i \in kids THEN n ELSE d.c[i]]]
       IN MoveAll(d1, from, to, Tail(js), IF o = other THEN n ELSE other)
Relocate(d, n, i, rest) ==
  LET x == d.b[n] + i
      m == d.c[x]
      mine == Arcs(d, n)
      theirs == Arcs(d, m)
      small == Cardinality(mine) + 1 < Cardinality(theirs)
      who == IF small THEN n ELSE m
      S == IF small THEN mine ELSE theirs
      f == FirstFit(d, IF small THEN mine \cup {i} ELSE theirs)
      mv == MoveAll([d EXCEPT !.b[who] = f], d.b[who], f, Asc(S), n)
      d1 == mv[1]
      n1 == mv[2]
  IN IF i = 1 THEN SetCell(d1, d1.b[n1] + 1, -1, n1) ELSE PutTail(d1, n1, d1.b[n1] + i, rest)
RECURSIVE Insert(_, _, _)
Insert(d, n, w) ==
  LET x == d.b[n] + Head(w) IN
  IF d.c[x] = -1 THEN PutTail(d, n, x, Tail(w))
  ELSE IF d.c[x] # n THEN Relocate(d, n, Head(w), Tail(w))
  ELSE IF d.b[x] < -1 THEN Split(d, x, Tail(w))
  ELSE Insert(d, x, Tail(w))
RECURSIVE Find(_, _, _)   \* <<found?, cell>>
Find(d, n, w) ==
  LET x == d.b[n] + Head(w) IN
  IF d.c[x] # n THEN <<FALSE, 0>>
  ELSE IF Tail(w) = <<>> THEN <<TRUE, x>>
  ELSE IF d.b[x] < -1 THEN <<d.t[(0 - d.b[x]) - 1] = Tail(w), x>>
  ELSE Find(d, x, Tail(w))
RECURSIVE Visit(_, _, _)
Visit(d, n, pre) ==       \* words below node n in code order
  FlattenSeq([k \in 1..Cardinality(Arcs(d, n)) |->
     LET i == Asc(Arcs(d, n))[k]
         x == d.b[n] + i
     IN IF i = 1 THEN <<pre>>
        ELSE IF d.b[x] < -1 THEN <<pre \o <<i>> \o SubSeq(d.t[(0 - d.b[x]) - 1], 1, Len(d.t[(0 - d.b[x]) - 1]) - 1)>>
        ELSE Visit(d, x, Append(pre, i))])
DInit == /\ ts = [x \in {0} |-> {}] /\ al = [x \in {0} |-> 0] /\ last = Nothing /\ D = NewDA /\ hist = <<>>
DNext == /\ Len(hist) < Depth
         /\ \E w \in W :
              \/ w \notin ts[0] /\ Do("ins", <<0>>, w) /\ D' = Insert(D, 0, Append(w, 1))
              \/ /\ Removals /\ w \in ts[0] /\ Do("rem", <<0>>, w)
                 /\ LET f == Find(D, 0, Append(w, 1))[2] IN D' = SetCell(D, f, -1, -1)
         /\ hist' = Append(hist, last')
DSpec == DInit /\ [][DNext]_dv
Retrieval == \A w \in W : Find(D, 0, Append(w, 1))[1] = (w \in ts[0])
Iteration == Visit(D, 0, <<>>) = Sorted(ts[0])
Parents == \A x \in 1..Cap : D.c[x] # -1 => D.b[D.c[x]] > -1 /\ (x - D.b[D.c[x]]) \in Code
Emit == Len(hist') = Depth => PrintT(ToJson([h |-> [i \in 1..Depth |-> [op |-> hist'[i].op, b |-> hist'[i].b]]]))
=============================================================================
