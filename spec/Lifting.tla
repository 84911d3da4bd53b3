------------------------------ MODULE Lifting ------------------------------
(***************************************************************************)
(* Design of the binary-lifting tables: a node stores its 2^i-th ancestors   *)
(* (those that exist).  Every tree over at most N nodes is grown; TLC checks   *)
(* that lifting refines RootedTree and emits every complete tree for replay.  *)
(* Fam = "any": new node below any node;  "chains": below the last node of    *)
(* the stem or of one of two chains (deep trees).                            *)
(***************************************************************************)
EXTENDS RootedTree, TLC, Json
CONSTANTS N, Fam
VARIABLES up, tip     \* up[x]: lifting table; tip: ends of the two chains
v2 == <<vars, up, tip>>
RECURSIVE Fill(_, _, _)
Fill(tab, anc, i) == IF Len(tab[anc[i]]) < i THEN anc ELSE Fill(tab, Append(anc, tab[anc[i]][i]), i + 1)
LInit == /\ val = [x \in 1..N |-> 0] /\ par = [x \in {1} |-> 0] /\ dep = par /\ order = <<1>> /\ root = 1 /\ last = Nothing
         /\ up = [x \in {1} |-> <<>>] /\ tip = <<1, 1>>
LNext == LET n == Len(order) + 1 IN
  /\ n <= N
  /\ \E p \in 1..(n - 1) : \E k \in 1..2 :
       /\ IF Fam = "any" THEN k = 1 ELSE p = tip[k]
       /\ Do("add", <<n, p>>, <<>>)
       /\ up' = [x \in 1..n |-> IF x = n THEN Fill(up, <<p>>, 1) ELSE up[x]]
       /\ tip' = IF Fam = "any" THEN tip
                 ELSE IF tip[1] = tip[2] /\ k = 1 THEN <<n, n>> ELSE [tip EXCEPT ![k] = n]
LSpec == LInit /\ [][LNext]_v2
RECURSIVE Lift(_, _, _)
Lift(x, k, i) == IF Pow2(i) > k THEN x
                 ELSE Lift(IF (k \div Pow2(i)) % 2 = 1 THEN up[x][i + 1] ELSE x, k, i + 1)
RECURSIVE Climb(_, _, _)
Climb(x, y, i) == IF i = 0 THEN par[x]
                  ELSE IF i > Len(up[x]) \/ up[x][i] = up[y][i] THEN Climb(x, y, i - 1)
                  ELSE Climb(up[x][i], up[y][i], i - 1)
FastLca(x, y) ==
  LET dx == Depth(x)
      dy == Depth(y)
      u == IF dx > dy THEN Lift(x, dx - dy, 0) ELSE x
      w == IF dy > dx THEN Lift(y, dy - dx, 0) ELSE y
  IN IF u = w THEN u ELSE Climb(u, w, Len(up[u]))
Refines == \A x \in DOMAIN par :
   /\ dep[x] = DepthDef(x) /\ up[x] = Jumps(x)
   /\ \A k \in 0..Depth(x) : Lift(x, k, 0) = UpDef(x, k) /\ Up(x, k) = UpDef(x, k)
   /\ \A y \in DOMAIN par : /\ FastLca(x, y) = LcaDef(x, y) /\ Lca(x, y) = LcaDef(x, y)
                            /\ Dist(x, y) = DistDef(x, y)
Emit == Len(order') = N => PrintT(ToJson([par |-> [x \in 1..N |-> par'[x]]]))
=============================================================================
