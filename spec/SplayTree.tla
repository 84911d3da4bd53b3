----------------------------- MODULE SplayTree -----------------------------
(***************************************************************************)
(* Design of the splay tree behind BSTree: child and parent links, bottom-up *)
(* splaying by single rotations.  Checked: the links always form a search     *)
(* tree over exactly the stored nodes, and pre/suf found in the tree are the  *)
(* neighbours in rank order (refinement of BSTree).                          *)
(* Node x has rank x; 0 is null.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
VARIABLES ch, fa, root, in
vars == <<ch, fa, root, in>>
Node == 1..N
T(c, f, r) == [ch |-> c, fa |-> f, root |-> r]
(* one rotation that lifts x above its parent; d: side of x below the parent *)
Rotate(t, x) ==
  LET y == t.fa[x]
      z == t.fa[y]
      d == IF t.ch[y][1] = x THEN 1 ELSE 2
      o == 3 - d
      m == t.ch[x][o]
      c1 == [t.ch EXCEPT ![y][d] = m, ![x][o] = y]
      c2 == IF z = 0 THEN c1 ELSE [c1 EXCEPT ![z][IF t.ch[z][1] = y THEN 1 ELSE 2] = x]
      f1 == [t.fa EXCEPT ![y] = x, ![x] = z]
      f2 == IF m = 0 THEN f1 ELSE [f1 EXCEPT ![m] = y]
  IN T(c2, f2, IF t.root = y THEN x ELSE t.root)
RECURSIVE Splay(_, _)
Splay(t, x) ==
  IF t.fa[x] = 0 THEN t
  ELSE LET y == t.fa[x]
           z == t.fa[y]
       IN IF z = 0 THEN Rotate(t, x)
          ELSE IF (t.ch[z][1] = y) = (t.ch[y][1] = x) THEN Splay(Rotate(Rotate(t, y), x), x)
          ELSE Splay(Rotate(Rotate(t, x), x), x)
RECURSIVE Desc(_, _, _)
Desc(t, cur, x) == LET d == IF x < cur THEN 1 ELSE 2 IN
  IF t.ch[cur][d] = 0 THEN cur ELSE Desc(t, t.ch[cur][d], x)
RECURSIVE End(_, _, _)
End(t, x, d) == IF t.ch[x][d] = 0 THEN x ELSE End(t, t.ch[x][d], d)
Cur == T(ch, fa, root)
Become(t) == ch' = t.ch /\ fa' = t.fa /\ root' = t.root

Init == ch = [x \in Node |-> <<0, 0>>] /\ fa = [x \in Node |-> 0] /\ root = 0 /\ in = {}
Insert(x) == /\ x \notin in /\ in' = in \cup {x}
             /\ IF root = 0 THEN root' = x /\ UNCHANGED <<ch, fa>>
                ELSE LET p == Desc(Cur, root, x)
                         d == IF x < p THEN 1 ELSE 2
                     IN Become(Splay(T([ch EXCEPT ![p][d] = x], [fa EXCEPT ![x] = p], root), x))
(* removal: x is splayed to the root, its predecessor becomes the new root *)
Erase(x) == /\ x \in in /\ in' = in \ {x}
            /\ LET t == Splay(Cur, x)
                   l == t.ch[x][1]
                   r == t.ch[x][2]
                   Clear(c, f) == <<[c EXCEPT ![x] = <<0, 0>>], [f EXCEPT ![x] = 0]>>
               IN IF l = 0 THEN LET k == Clear(t.ch, IF r = 0 THEN t.fa ELSE [t.fa EXCEPT ![r] = 0]) IN Become(T(k[1], k[2], r))
                  ELSE IF r = 0 THEN LET k == Clear(t.ch, [t.fa EXCEPT ![l] = 0]) IN Become(T(k[1], k[2], l))
                  ELSE LET p == End(t, l, 2)
                           pl == t.ch[p][1]
                           \* detach p
                           c1 == IF p = l THEN [t.ch EXCEPT ![x][1] = pl] ELSE [t.ch EXCEPT ![t.fa[p]][2] = pl]
                           f1 == IF pl = 0 THEN t.fa ELSE [t.fa EXCEPT ![pl] = t.fa[p]]
                           nl == c1[x][1]
                           c2 == [c1 EXCEPT ![p] = <<nl, r>>]
                           f2 == [f1 EXCEPT ![p] = 0, ![r] = p]
                           f3 == IF nl = 0 THEN f2 ELSE [f2 EXCEPT ![nl] = p]
                           k == Clear(c2, f3)
                       IN Become(T(k[1], k[2], p))
Query(x) == x \in in /\ Become(Splay(Cur, x)) /\ UNCHANGED in
Next == \E x \in Node : Insert(x) \/ Erase(x) \/ Query(x)
Spec == Init /\ [][Next]_vars
RECURSIVE InOrder(_)
InOrder(x) == IF x = 0 THEN <<>> ELSE InOrder(ch[x][1]) \o <<x>> \o InOrder(ch[x][2])
Links == /\ (root = 0) = (in = {})
         /\ root # 0 => fa[root] = 0
         /\ \A x \in in : \A d \in 1..2 : ch[x][d] # 0 => ch[x][d] \in in /\ fa[ch[x][d]] = x
         /\ \A x \in Node \ in : ch[x] = <<0, 0>> /\ fa[x] = 0
Ordered == LET o == InOrder(root) IN
         /\ Len(o) = Cardinality(in) /\ {o[i] : i \in DOMAIN o} = in
         /\ \A i \in 1..(Len(o) - 1) : o[i] < o[i + 1]
Neighbours == \A x \in in : LET t == Splay(Cur, x)
                                p == IF t.ch[x][1] = 0 THEN 0 ELSE End(t, t.ch[x][1], 2)
                                s == IF t.ch[x][2] = 0 THEN 0 ELSE End(t, t.ch[x][2], 1)
                            IN /\ IF p = 0 THEN \A y \in in : y >= x ELSE p \in in /\ p < x /\ \A y \in in : ~(p < y /\ y < x)
                               /\ IF s = 0 THEN \A y \in in : y <= x ELSE s \in in /\ s > x /\ \A y \in in : ~(x < y /\ y < s)
=============================================================================
