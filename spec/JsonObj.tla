------------------------------ MODULE JsonObj ------------------------------
(***************************************************************************)
(* Property C11: JSON objects as independent mutable values.                *)
(* objs: live objects -> value (JsonVal).  A node is addressed by a path of   *)
(* array indexes and keys; navigating with the non-const operators converts   *)
(* nodes to the needed type and creates missing ones (as null).              *)
(* b = path [path | value | key] in the flat encoding.                       *)
(***************************************************************************)
EXTENDS JsonVal
VARIABLES objs, last
vars == <<objs, last>>
None == [x \in {} |-> 0]
Init == objs = None /\ last = Nothing
Start == objs' = None /\ last' = Nothing
Live(o) == o \in DOMAIN objs
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
RECURSIVE DecSteps(_, _, _, _)
(* a step is <<0, index>> or <<1, key>> *)
DecSteps(f, i, k, acc) == IF k = 0 THEN [p |-> acc, n |-> i]
   ELSE IF f[i] = 0 THEN DecSteps(f, i + 2, k - 1, Append(acc, [idx |-> f[i + 1], key |-> <<>>]))
   ELSE DecSteps(f, i + 2 + f[i + 1], k - 1, Append(acc, [idx |-> -1, key |-> SubSeq(f, i + 2, i + 1 + f[i + 1])]))
DecPath(f, i) == DecSteps(f, i + 1, f[i], <<>>)
RECURSIVE Has(_, _)
Has(x, p) == IF p = <<>> THEN TRUE ELSE
   LET s == p[1] IN IF s.idx >= 0 THEN x.t = 5 /\ s.idx < Len(x.v) /\ Has(x.v[s.idx + 1], Tail(p))
                    ELSE x.t = 6 /\ KeyAt(x.v, s.key) # 0 /\ Has(x.v[KeyAt(x.v, s.key)][2], Tail(p))
RECURSIVE Get(_, _)     \* node at the path; null where navigation creates it
Get(x, p) == IF p = <<>> THEN x
   ELSE LET s == p[1] IN
        IF s.idx >= 0 THEN Get(IF x.t = 5 /\ s.idx < Len(x.v) THEN x.v[s.idx + 1] ELSE Null, Tail(p))
        ELSE Get(IF x.t = 6 /\ KeyAt(x.v, s.key) # 0 THEN x.v[KeyAt(x.v, s.key)][2] ELSE Null, Tail(p))
RECURSIVE Upd(_, _, _)
Upd(x, p, w) == IF p = <<>> THEN w
   ELSE LET s == p[1] IN
        IF s.idx >= 0
        THEN LET q == IF x.t = 5 THEN x.v ELSE <<>>
                 full == q \o [i \in 1..MaxI(0, s.idx + 1 - Len(q)) |-> Null]
             IN ArrV([full EXCEPT ![s.idx + 1] = Upd(@, Tail(p), w)])
        ELSE LET q == IF x.t = 6 THEN x.v ELSE <<>>
                 k == KeyAt(q, s.key)
             IN ObjV(PutKey(q, s.key, Upd(IF k = 0 THEN Null ELSE q[k][2], Tail(p), w)))
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Ok(op, a, b, r) == last' = Ev(op, a, b, <<>>, "ok", r)
Default(t) == CASE t = 0 -> Null [] t = 1 -> BoolV(0) [] t = 2 -> IntV(0) [] t = 3 -> FloatV(0, 0, 0)
                [] t = 4 -> StrV(<<>>) [] t = 5 -> ArrV(<<>>) [] OTHER -> ObjV(<<>>)
Info(x) == <<x.t, Bit(x.t = 0), IF x.t \in {5, 6} THEN Len(x.v) ELSE -1, IF x.t = 5 THEN Len(x.v) ELSE -1,
             IF x.t = 2 THEN x.v[1] ELSE 0, IF x.t = 1 THEN x.v[1] ELSE 0>>
           \o (IF x.t = 3 THEN x.v ELSE <<0, 0, 0>>) \o (IF x.t = 4 THEN Esc(x.v) ELSE <<>>)
(* the path leads to a node, or to a new member of an array, of an object or of a null *)
Grow(x, p) == IF Has(x, p) THEN TRUE ELSE
   LET h == SubSeq(p, 1, Len(p) - 1) IN
   IF ~Has(x, h) THEN FALSE ELSE Get(x, h).t \in {0, IF p[Len(p)].idx >= 0 THEN 5 ELSE 6}
Do(op, a, b) ==
  LET o == a[1] IN
  CASE op = "mk"    -> ~Live(o) /\ objs' = Put(objs, o, ValueOf(b)) /\ Ok(op, a, b, <<>>)
    [] op = "build" -> ~Live(o) /\ objs' = Put(objs, o, Default(a[2])) /\ Ok(op, a, b, <<>>)
    [] op = "copy"  -> ~Live(o) /\ Live(a[2]) /\ objs' = Put(objs, o, objs[a[2]]) /\ Ok(op, a, b, <<>>)
    [] op = "move"  -> ~Live(o) /\ Live(a[2]) /\ objs' = Put(Put(objs, a[2], Null), o, objs[a[2]]) /\ Ok(op, a, b, <<>>)
    [] op = "del"   -> Live(o) /\ objs' = [y \in DOMAIN objs \ {o} |-> objs[y]] /\ Ok(op, a, b, <<>>)
    [] op = "set"   -> LET d == DecPath(b, 1) IN       \* node = value
                       Live(o) /\ objs' = Put(objs, o, Upd(objs[o], d.p, Dec(b, d.n).x)) /\ Ok(op, a, b, <<>>)
    [] op = "app"   -> LET d == DecPath(b, 1)          \* node.append(values...)
                           x == Get(objs[o], d.p)
                           old == IF x.t = 5 THEN x.v ELSE <<>>
                       IN Live(o) /\ objs' = Put(objs, o, Upd(objs[o], d.p, ArrV(old \o Dec(b, d.n).x.v))) /\ Ok(op, a, b, <<>>)
    [] op = "asg"   -> LET d == DecPath(b, 1)          \* node = other node, both exist
                           e == DecPath(b, d.n)
                       IN /\ Live(o) /\ Live(a[2]) /\ Has(objs[o], d.p) /\ Has(objs[a[2]], e.p)
                          /\ objs' = Put(objs, o, Upd(objs[o], d.p, Get(objs[a[2]], e.p))) /\ Ok(op, a, b, <<>>)
    [] op = "mva"   -> LET d == DecPath(b, 1)          \* node = std::move(other node)
                           e == DecPath(b, d.n)
                           x == Get(objs[a[2]], e.p)
                           emptied == Put(objs, a[2], Upd(objs[a[2]], e.p, Null))
                       IN /\ Live(o) /\ Live(a[2]) /\ Has(objs[o], d.p) /\ Has(objs[a[2]], e.p)
                          /\ ~(o = a[2] /\ Prefix(e.p, d.p))
                          /\ objs' = Put(emptied, o, Upd(emptied[o], d.p, x)) /\ Ok(op, a, b, <<>>)
    [] op = "apn"   -> LET d == DecPath(b, 1)          \* node.append(other node)
                           e == DecPath(b, d.n)
                           x == Get(objs[o], d.p)
                           old == IF x.t = 5 THEN x.v ELSE <<>>
                       IN /\ Live(o) /\ Live(a[2]) /\ Has(objs[o], d.p) /\ Has(objs[a[2]], e.p)
                          /\ objs' = Put(objs, o, Upd(objs[o], d.p, ArrV(Append(old, Get(objs[a[2]], e.p))))) /\ Ok(op, a, b, <<>>)
    (* the same with a reference to the source that is taken before the way to the destination adds members *)
    [] op = "rasg"  -> LET d == DecPath(b, 1)
                           e == DecPath(b, d.n)
                           pre == Put(objs, o, Upd(objs[o], d.p, Get(objs[o], d.p)))
                       IN /\ Live(o) /\ Live(a[2]) /\ Has(objs[a[2]], e.p) /\ Grow(objs[o], d.p)
                          /\ objs' = Put(pre, o, Upd(pre[o], d.p, Get(pre[a[2]], e.p))) /\ Ok(op, a, b, <<>>)
    [] op = "rmva"  -> LET d == DecPath(b, 1)
                           e == DecPath(b, d.n)
                           pre == Put(objs, o, Upd(objs[o], d.p, Get(objs[o], d.p)))
                           x == Get(pre[a[2]], e.p)
                           emptied == Put(pre, a[2], Upd(pre[a[2]], e.p, Null))
                       IN /\ Live(o) /\ Live(a[2]) /\ Has(objs[a[2]], e.p) /\ Grow(objs[o], d.p)
                          /\ ~(o = a[2] /\ Prefix(e.p, d.p))
                          /\ objs' = Put(emptied, o, Upd(emptied[o], d.p, x)) /\ Ok(op, a, b, <<>>)
    [] op = "rapn"  -> LET d == DecPath(b, 1)
                           e == DecPath(b, d.n)
                           pre == Put(objs, o, Upd(objs[o], d.p, Get(objs[o], d.p)))
                           x == Get(pre[o], d.p)
                           old == IF x.t = 5 THEN x.v ELSE <<>>
                       IN /\ Live(o) /\ Live(a[2]) /\ Has(objs[a[2]], e.p) /\ Grow(objs[o], d.p)
                          /\ objs' = Put(pre, o, Upd(pre[o], d.p, ArrV(Append(old, Get(pre[a[2]], e.p))))) /\ Ok(op, a, b, <<>>)
    [] op = "fill"  -> LET d == DecPath(b, 1)          \* for (auto &x : range) x = value
                           x == Get(objs[o], d.p)
                           w == Dec(b, d.n).x
                       IN /\ Live(o) /\ Has(objs[o], d.p)
                          /\ objs' = Put(objs, o, Upd(objs[o], d.p, CASE x.t = 5 -> ArrV([i \in 1..Len(x.v) |-> w])
                                                                      [] x.t = 6 -> ObjV([i \in 1..Len(x.v) |-> <<x.v[i][1], w>>])
                                                                      [] OTHER -> x)) /\ Ok(op, a, b, <<>>)
    [] op = "touch" -> LET d == DecPath(b, 1) IN       \* navigation alone
                       Live(o) /\ objs' = Put(objs, o, Upd(objs[o], d.p, Get(objs[o], d.p))) /\ Ok(op, a, b, Enc(Get(objs[o], d.p)))
    [] op = "cget"  -> LET d == DecPath(b, 1) IN       \* const access
                       Live(o) /\ Has(objs[o], d.p) /\ UNCHANGED objs /\ Ok(op, a, b, Enc(Get(objs[o], d.p)))
    [] op = "info"  -> LET d == DecPath(b, 1) IN
                       Live(o) /\ Has(objs[o], d.p) /\ UNCHANGED objs /\ Ok(op, a, b, Info(Get(objs[o], d.p)))
    [] op = "key"   -> LET d == DecPath(b, 1)
                           x == Get(objs[o], d.p)
                           k == SubSeq(b, d.n, Len(b))
                       IN Live(o) /\ Has(objs[o], d.p) /\ UNCHANGED objs
                          /\ Ok(op, a, b, <<Bit(x.t = 6 /\ KeyAt(x.v, k) # 0)>>)
    [] op = "cat"   -> LET d == DecPath(b, 1)          \* const at(key): a missing key is reported, not created
                           x == Get(objs[o], d.p)
                           k == SubSeq(b, d.n, Len(b))
                       IN Live(o) /\ Has(objs[o], d.p) /\ UNCHANGED objs
                          /\ Ok(op, a, b, IF x.t # 6 THEN <<-1>> ELSE IF KeyAt(x.v, k) = 0 THEN <<-1>> ELSE Enc(x.v[KeyAt(x.v, k)][2]))
    [] op = "cai"   -> LET d == DecPath(b, 1)          \* const at(index)
                           x == Get(objs[o], d.p)
                       IN Live(o) /\ Has(objs[o], d.p) /\ UNCHANGED objs
                          /\ Ok(op, a, b, IF x.t # 5 THEN <<-1>> ELSE IF a[2] >= Len(x.v) THEN <<-1>> ELSE Enc(x.v[a[2] + 1]))
    [] op = "see"   -> Live(o) /\ UNCHANGED objs /\ Ok(op, a, b, Enc(objs[o]))
=============================================================================
