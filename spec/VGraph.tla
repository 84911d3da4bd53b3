------------------------------- MODULE VGraph -------------------------------
(***************************************************************************)
(* Property C08.  vs: live vertices -> <<value, valid>>;                    *)
(* es: live edges -> <<from, to, value, valid>>;  se: stand-alone Edge      *)
(* objects.  An edge is in the out-list of its start and in the in-list of  *)
(* its end, and it lives exactly as long as both end points do.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Util
VARIABLES vs, es, se, last
vars == <<vs, es, se, last>>
None == [x \in {} |-> 0]
Init == vs = None /\ es = None /\ se = None /\ last = Nothing
Start == vs' = None /\ es' = None /\ se' = None /\ last' = Nothing
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, S) == [y \in DOMAIN f \ S |-> f[y]]
Out(v) == {e \in DOMAIN es : es[e][1] = v}
Inn(v) == {e \in DOMAIN es : es[e][2] = v}
Asc(S) == SetToSortSeq(S, <)
V(v) == v \in DOMAIN vs
Edgeless(v) == Out(v) \cup Inn(v) = {}
Look(v) == <<v, vs[v][1], vs[v][2], Cardinality(Inn(v)), Cardinality(Out(v))>>
           \o Asc(Out(v)) \o <<-1>> \o Asc(Inn(v)) \o <<-1>>
Ok(op, a, r) == last' = Ev(op, a, <<>>, <<>>, "ok", r)
Same == UNCHANGED <<vs, es, se>>
Do(op, a, b) ==
  CASE op = "mk"      -> /\ ~V(a[1]) /\ vs' = Put(vs, a[1], <<a[2], 1>>) /\ UNCHANGED <<es, se>> /\ Ok(op, a, <<a[1]>>)
    [] op = "copy"    -> /\ ~V(a[1]) /\ V(a[2]) /\ Edgeless(a[2])
                         /\ vs' = Put(vs, a[1], vs[a[2]]) /\ UNCHANGED <<es, se>> /\ Ok(op, a, <<a[1]>>)
    [] op = "assign"  -> /\ V(a[1]) /\ V(a[2]) /\ Edgeless(a[1]) /\ Edgeless(a[2])
                         /\ vs' = Put(vs, a[1], vs[a[2]]) /\ UNCHANGED <<es, se>> /\ Ok(op, a, <<>>)
    [] op = "kill"    -> /\ V(a[1]) /\ vs' = Drop(vs, {a[1]}) /\ es' = Drop(es, Out(a[1]) \cup Inn(a[1]))
                         /\ se' = Drop(se, {x \in DOMAIN se : a[1] \in {se[x][1], se[x][2]}}) /\ Ok(op, a, <<>>)
    [] op = "edge"    -> /\ V(a[2]) /\ V(a[3]) /\ a[1] \notin DOMAIN es
                         /\ es' = Put(es, a[1], <<a[2], a[3], a[4], 1>>) /\ UNCHANGED <<vs, se>> /\ Ok(op, a, <<1>>)
    [] op = "vset"    -> /\ V(a[1]) /\ vs' = Put(vs, a[1], <<a[2], vs[a[1]][2]>>) /\ UNCHANGED <<es, se>> /\ Ok(op, a, <<>>)
    [] op = "vvalid"  -> /\ V(a[1]) /\ vs' = Put(vs, a[1], <<vs[a[1]][1], a[2]>>) /\ UNCHANGED <<es, se>> /\ Ok(op, a, <<>>)
    [] op = "eset"    -> /\ a[1] \in DOMAIN es /\ es' = [es EXCEPT ![a[1]][3] = a[2]] /\ UNCHANGED <<vs, se>> /\ Ok(op, a, <<>>)
    [] op = "evalid"  -> /\ a[1] \in DOMAIN es /\ es' = [es EXCEPT ![a[1]][4] = a[2]] /\ UNCHANGED <<vs, se>> /\ Ok(op, a, <<>>)
    [] op = "vcmp"    -> V(a[1]) /\ V(a[2]) /\ Same
                         /\ Ok(op, a, <<Bit(a[1] = a[2]), Bit(a[1] # a[2]), Bit(vs[a[1]][1] < vs[a[2]][1])>>)
    [] op = "einfo"   -> a[1] \in DOMAIN es /\ Same /\ Ok(op, a, <<a[1]>> \o es[a[1]])
    [] op = "ecmp"    -> a[1] \in DOMAIN es /\ a[2] \in DOMAIN es /\ Same
                         /\ Ok(op, a, <<Bit(a[1] = a[2]), Bit(a[1] # a[2]), Bit(es[a[1]][3] < es[a[2]][3])>>)
    \* stand-alone edges: a copy has its own identity; assignment keeps the identity
    [] op = "smk"     -> /\ a[1] \notin DOMAIN se /\ V(a[2]) /\ V(a[3])
                         /\ se' = Put(se, a[1], <<a[2], a[3], a[4], 1>>) /\ UNCHANGED <<vs, es>> /\ Ok(op, a, <<1>>)
    [] op = "scopy"   -> /\ a[1] \notin DOMAIN se /\ a[2] \in DOMAIN es
                         /\ se' = Put(se, a[1], es[a[2]]) /\ UNCHANGED <<vs, es>> /\ Ok(op, a, <<1>>)
    [] op = "sassign" -> /\ a[1] \in DOMAIN se /\ a[2] \in DOMAIN es
                         /\ se' = Put(se, a[1], es[a[2]]) /\ UNCHANGED <<vs, es>> /\ Ok(op, a, <<>>)
    [] op = "sinfo"   -> a[1] \in DOMAIN se /\ Same /\ Ok(op, a, <<a[1]>> \o se[a[1]])
    [] op = "look"    -> V(a[1]) /\ Same /\ Ok(op, a, Look(a[1]))
    \* a[3] more edges and vertices, gone again at the end: as many identities, all of them new
    [] op = "mass"    -> V(a[1]) /\ V(a[2]) /\ a[3] > 0 /\ Same /\ Ok(op, a, <<a[3], 0, a[3], a[3], 1, 0, a[3], 0, 0>>)
    [] op = "all"     -> Same /\ LET qv == Asc(DOMAIN vs)
                                  qe == Asc(DOMAIN es)
                              IN Ok(op, a, FlattenSeq([i \in 1..Len(qv) |-> Look(qv[i])]) \o FlattenSeq([i \in 1..Len(qe) |-> <<qe[i]>> \o es[qe[i]]]))
=============================================================================
