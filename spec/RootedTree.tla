----------------------------- MODULE RootedTree -----------------------------
(***************************************************************************)
(* Property C07.  The abstract state is the parent relation of a rooted tree *)
(* over numbered nodes; every query is answered from the parent chains.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Util
VARIABLES val, par, dep, order, root, last
  \* val: created nodes, their <<id, value>> (ids need not differ); par: parent of attached nodes (root: 0); dep: their depths;
  \* order: attached nodes in order of attachment
vars == <<val, par, dep, order, root, last>>
Empty == [x \in {} |-> 0]
Init == val = Empty /\ par = Empty /\ dep = Empty /\ order = <<>> /\ root = 0 /\ last = Nothing
Start == val' = Empty /\ par' = Empty /\ dep' = Empty /\ order' = <<>> /\ root' = 0 /\ last' = Nothing
In(x) == x \in DOMAIN par
RECURSIVE Chain(_)
Chain(x) == IF par[x] = 0 THEN <<x>> ELSE <<x>> \o Chain(par[x])     \* x, its parent, ..., the root
(* The definitions: depth, k-th ancestor, first common node of the two chains, steps to it *)
DepthDef(x) == Len(Chain(x)) - 1
UpDef(x, k) == Chain(x)[k + 1]
LcaDef(x, y) == LET c == Chain(x)
                    d == ToSet(Chain(y))
                IN c[SelectInSeq(c, LAMBDA z : z \in d)]
DistDef(x, y) == LET c == Chain(x)
                     d == Chain(y)
                     z == LcaDef(x, y)
                 IN (SelectInSeq(c, LAMBDA u : u = z) - 1) + (SelectInSeq(d, LAMBDA u : u = z) - 1)
(* The same without recursion, for trees tens of thousands of nodes deep; that they agree *)
(* with the definitions is checked on every tree of Lifting. *)
Depth(x) == dep[x]
Up(x, k) == FoldLeft(LAMBDA y, i : par[y], x, [i \in 1..k |-> i])
Max2(a, b) == IF a > b THEN a ELSE b
Lca(x, y) == LET u == Up(x, Max2(0, dep[x] - dep[y]))
                 w == Up(y, Max2(0, dep[y] - dep[x]))
             IN FoldLeft(LAMBDA p, i : IF p[1] = p[2] THEN p ELSE <<par[p[1]], par[p[2]]>>, <<u, w>>, [i \in 1..dep[u] |-> i])[1]
Dist(x, y) == dep[x] + dep[y] - 2 * dep[Lca(x, y)]
Sons(x) == SelectSeq(order, LAMBDA y : par[y] = x)
RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
(* the 2^i-th ancestors that exist *)
Jumps(x) == IF dep[x] = 0 THEN <<>> ELSE [i \in 1..(Log2(dep[x]) + 1) |-> Up(x, Pow2(i - 1))]
Keep == UNCHANGED <<val, par, dep, order, root>>
Obs(op, a, r) == Keep /\ last' = Ev(op, a, <<>>, <<>>, "ok", r)
Ok(op, a) == last' = Ev(op, a, <<>>, <<>>, "ok", <<>>)
Do(op, a, b) ==
  CASE op = "mk"   -> /\ a[1] > 0 /\ a[1] \notin DOMAIN val
                      /\ val' = [x \in DOMAIN val \cup {a[1]} |-> IF x = a[1] THEN <<IF Len(a) > 2 THEN a[3] ELSE x, a[2]>> ELSE val[x]]
                      /\ UNCHANGED <<par, dep, order, root>> /\ Ok(op, a)
    [] op = "root" -> /\ root = 0 /\ a[1] \in DOMAIN val
                      /\ root' = a[1] /\ UNCHANGED val /\ Ok(op, a)
                      /\ IF order = <<>> THEN par' = [x \in {a[1]} |-> 0] /\ dep' = par' /\ order' = <<a[1]>>
                         ELSE a[1] = order[1] /\ UNCHANGED <<par, dep, order>>      \* the top of a tree built before
    [] op = "top"  -> /\ order = <<>> /\ a[1] \in DOMAIN val                          \* building starts at a node that becomes the root later
                      /\ par' = [x \in {a[1]} |-> 0] /\ dep' = par' /\ order' = <<a[1]>> /\ UNCHANGED <<val, root>> /\ Ok(op, a)
    [] op = "add"  -> /\ a[1] \in DOMAIN val /\ ~In(a[1]) /\ In(a[2])
                      /\ par' = [x \in DOMAIN par \cup {a[1]} |-> IF x = a[1] THEN a[2] ELSE par[x]]
                      /\ dep' = [x \in DOMAIN par \cup {a[1]} |-> IF x = a[1] THEN dep[a[2]] + 1 ELSE dep[x]]
                      /\ order' = Append(order, a[1]) /\ UNCHANGED <<val, root>> /\ Ok(op, a)
    [] op = "chain" ->             \* a[2] new nodes, named from a[1] on, each below the one before, the first below a[3]
                      LET new == a[1]..(a[1] + a[2] - 1) IN
                      /\ a[1] > 0 /\ a[2] > 0 /\ new \cap DOMAIN val = {} /\ In(a[3])
                      /\ val' = [x \in DOMAIN val \cup new |-> IF x \in new THEN <<x, 0>> ELSE val[x]]
                      /\ par' = [x \in DOMAIN par \cup new |-> IF x = a[1] THEN a[3] ELSE IF x \in new THEN x - 1 ELSE par[x]]
                      /\ dep' = [x \in DOMAIN par \cup new |-> IF x \in new THEN dep[a[3]] + 1 + (x - a[1]) ELSE dep[x]]
                      /\ order' = order \o [i \in 1..a[2] |-> a[1] + i - 1] /\ UNCHANGED root /\ Ok(op, a)
    [] op = "getroot" -> Obs(op, a, <<root>>)
    [] op = "lca"  -> In(a[1]) /\ In(a[2]) /\ Obs(op, a, <<Lca(a[1], a[2])>>)
    [] op = "dist" -> In(a[1]) /\ In(a[2]) /\ Obs(op, a, <<Dist(a[1], a[2])>>)
    [] op = "anc"  -> In(a[1]) /\ 0 <= a[2] /\ a[2] <= Depth(a[1]) /\ Obs(op, a, <<Up(a[1], a[2])>>)
    [] op = "info" -> a[1] \in DOMAIN val /\ Obs(op, a, IF ~In(a[1]) THEN <<0, 0, 0, val[a[1]][1], val[a[1]][2]>> ELSE <<Depth(a[1]), par[a[1]], Len(Sons(a[1])), val[a[1]][1], val[a[1]][2]>>)
    [] op = "sons" -> In(a[1]) /\ Obs(op, a, Sons(a[1]))
    [] op = "jumps"-> In(a[1]) /\ Obs(op, a, Jumps(a[1]))
    [] op = "pairs"-> Obs(op, a, FlattenSeq([i \in 1..Len(order) |-> FlattenSeq([j \in 1..Len(order) |->
                            <<Lca(order[i], order[j]), Dist(order[i], order[j])>>])]))
    [] op = "ancs" -> Obs(op, a, FlattenSeq([i \in 1..Len(order) |-> Chain(order[i])]))
=============================================================================
