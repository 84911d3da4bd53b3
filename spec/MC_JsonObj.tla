----------------------------- MODULE MC_JsonObj -----------------------------
(***************************************************************************)
(* Design of JSONObject: every node owns its children through pointers       *)
(* (heap cells).  Copying clones the subtree, assignment first clones (or     *)
(* takes over) the source and only then releases what the target held.        *)
(* TLC checks that the heap stays a forest without garbage or dangling        *)
(* pointers and denotes exactly JsonObj's values, for every aliasing of       *)
(* source and target, and emits the histories.                               *)
(***************************************************************************)
EXTENDS JsonObj, TLC, Json
CONSTANTS Starts, Depth
VARIABLES heap, root, nxt, hist, st
mv == <<vars, heap, root, nxt, hist, st>>
K == <<107>>
Docs == << << [t |-> 6, v |-> <<<<K, ArrV(<<IntV(1), ArrV(<<IntV(2)>>)>>)>>>>], ArrV(<<ObjV(<<<<K, IntV(3)>>>>), IntV(4)>>) >>,
           << ArrV(<<IntV(1), ArrV(<<IntV(2)>>)>>) >>,
           << ObjV(<<<<K, ObjV(<<<<K, StrV(<<97>>)>>>>)>>>>), Null >> >>
(* ---- heap ---- *)
Kids(x) == IF x.t = 5 THEN [i \in 1..Len(x.v) |-> <<<<>>, x.v[i]>>] ELSE IF x.t = 6 THEN x.v ELSE <<>>
RECURSIVE Store(_, _, _), StoreAll(_, _, _)
(* write value x as a fresh tree; addresses from n on: [h, n, a] *)
StoreAll(h, n, ks) == IF ks = <<>> THEN [h |-> h, n |-> n, as |-> <<>>]
   ELSE LET r == Store(h, n, Head(ks)[2])
            s == StoreAll(r.h, r.n, Tail(ks))
        IN [h |-> s.h, n |-> s.n, as |-> <<<<Head(ks)[1], r.a>>>> \o s.as]
Cell(x, as) == [t |-> x.t, v |-> IF x.t \in {5, 6} THEN <<>> ELSE x.v, kids |-> as]
Store(h, n, x) == LET r == StoreAll(h, n + 1, Kids(x)) IN [h |-> Put(r.h, n, Cell(x, r.as)), n |-> r.n, a |-> n]
RECURSIVE ReadOf(_, _)
ReadOf(h, a) == LET c == h[a] IN
   CASE c.t = 5 -> ArrV([i \in 1..Len(c.kids) |-> ReadOf(h, c.kids[i][2])])
     [] c.t = 6 -> ObjV([i \in 1..Len(c.kids) |-> <<c.kids[i][1], ReadOf(h, c.kids[i][2])>>])
     [] OTHER -> [t |-> c.t, v |-> c.v]
RECURSIVE Under(_, _)
Under(h, a) == {a} \cup UNION {Under(h, h[a].kids[i][2]) : i \in 1..Len(h[a].kids)}
RECURSIVE Addr(_, _, _)
Addr(h, a, p) == IF p = <<>> THEN a
   ELSE LET s == p[1]
            i == IF s.idx >= 0 THEN s.idx + 1 ELSE CHOOSE j \in 1..Len(h[a].kids) : h[a].kids[j][1] = s.key
        IN Addr(h, h[a].kids[i][2], Tail(p))
Without(h, D) == [y \in DOMAIN h \ D |-> h[y]]
Below(h, a) == Under(h, a) \ {a}
(* target = clone of source *)
HAssign(h, n, d, s) == LET c == Store(h, n, ReadOf(h, s))            \* clone first
                           old == Below(h, d)
                       IN [h |-> Without(Put(c.h, d, c.h[c.a]), old \cup {c.a}), n |-> c.n]
HMove(h, n, d, s) == LET taken == h[s]
                         h1 == Put(h, s, Cell(Null, <<>>))
                     IN [h |-> Without(Put(h1, d, taken), Below(h1, d)), n |-> n]
HSet(h, n, d, x) == LET c == Store(h, n, x) IN [h |-> Without(Put(c.h, d, c.h[c.a]), Below(h, d) \cup {c.a}), n |-> c.n]
HApp(h, n, d, x) == LET base == IF h[d].t = 5 THEN h ELSE Without(Put(h, d, Cell(ArrV(<<>>), <<>>)), Below(h, d))
                        c == Store(base, n, x)
                    IN [h |-> Put(c.h, d, [c.h[d] EXCEPT !.kids = Append(@, <<<<>>, c.a>>)]), n |-> c.n]
(* ---- paths ---- *)
I(k) == [idx |-> k, key |-> <<>>]
Y(k) == [idx |-> -1, key |-> k]
RECURSIVE PathsOf(_)
PathsOf(x) == {<<>>} \cup (IF x.t = 5 THEN UNION {{<<I(i - 1)>> \o p : p \in PathsOf(x.v[i])} : i \in 1..Len(x.v)}
                           ELSE IF x.t = 6 THEN UNION {{<<Y(x.v[i][1])>> \o p : p \in PathsOf(x.v[i][2])} : i \in 1..Len(x.v)}
                           ELSE {})
EncPath(p) == <<Len(p)>> \o FlattenSeq([i \in 1..Len(p) |-> IF p[i].idx >= 0 THEN <<0, p[i].idx>> ELSE <<1, Len(p[i].key)>> \o p[i].key])
MInit == /\ st \in Starts /\ last = Nothing /\ hist = <<>>
         /\ objs = [i \in 1..Len(Docs[st]) |-> Docs[st][i]]
         /\ LET r == StoreAll(None, 1, [i \in 1..Len(Docs[st]) |-> <<<<>>, Docs[st][i]>>])
            IN heap = r.h /\ nxt = r.n /\ root = [i \in 1..Len(Docs[st]) |-> r.as[i][2]]
Use(r) == heap' = r.h /\ nxt' = r.n
MNext ==
  /\ Len(hist) < Depth
  /\ \E o \in DOMAIN objs : \E p \in PathsOf(objs[o]) :
     LET d == Addr(heap, root[o], p) IN
     \/ \E w \in {IntV(7), Null} : Do("set", <<o, 0>>, EncPath(p) \o Enc(w)) /\ Use(HSet(heap, nxt, d, w))
     \/ Do("app", <<o, 0>>, EncPath(p) \o Enc(ArrV(<<IntV(9)>>))) /\ Use(HApp(heap, nxt, d, IntV(9)))
     \/ \E s \in DOMAIN objs : \E q \in PathsOf(objs[s]) :
        LET e == Addr(heap, root[s], q)
            b == EncPath(p) \o EncPath(q)
        IN \/ Do("asg", <<o, s>>, b) /\ Use(HAssign(heap, nxt, d, e))
           \/ Do("mva", <<o, s>>, b) /\ Use(HMove(heap, nxt, d, e))
           \/ Do("apn", <<o, s>>, b) /\ Use(HApp(heap, nxt, d, ReadOf(heap, e)))
  /\ UNCHANGED <<root, st>> /\ hist' = Append(hist, [op |-> last'.op, a |-> last'.a, b |-> last'.b])
MSpec == MInit /\ [][MNext]_mv
Denotes == \A o \in DOMAIN objs : ReadOf(heap, root[o]) = objs[o]
NoGarbage == DOMAIN heap = UNION {Under(heap, root[o]) : o \in DOMAIN objs}
Edges == UNION {{<<x, i>> : i \in 1..Len(heap[x].kids)} : x \in DOMAIN heap}
Forest == Cardinality(Edges) + Cardinality(DOMAIN objs) = Cardinality(DOMAIN heap)
Emit == Len(hist') = Depth => PrintT(ToJson([s |-> [i \in 1..Len(Docs[st]) |-> Enc(Docs[st][i])], h |-> hist']))
=============================================================================
