------------------------------- MODULE RandSeq -------------------------------
(***************************************************************************)
(* Property C19 (reproducibility).  gens: generator -> its history, the seed   *)
(* followed by the calls made since.  memo: what a history's last call         *)
(* returned.  The result of a call is a function of the generator's own         *)
(* history only: equal histories give equal results, whatever other generators  *)
(* did in between.  first: opening values by seed; distinct seeds differ.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Util, TLC
VARIABLES gens, memo, first, last
vars == <<gens, memo, first, last>>
None == [x \in {} |-> 0]
Init == gens = None /\ memo = None /\ first = None /\ last = Nothing
Start == gens' = None /\ UNCHANGED <<memo, first>> /\ last' = Nothing      \* results are remembered across episodes
Live(g) == g \in DOMAIN gens
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Calls == {"int0", "int1", "int2", "bool", "dbl0", "dbl1", "dbl2", "dist"}
Legal(op, a, b) == CASE op = "new" -> ~Live(a[1]) [] op = "copy" -> ~Live(a[1]) /\ Live(a[2]) [] op = "asg" -> Live(a[1]) /\ Live(a[2])
                     [] op \in {"seed", "del"} -> Live(a[1]) [] op \in Calls -> Live(a[1]) [] op = "fresh" -> TRUE
Sig(op, a, b) == <<op>> \o Tail(a) \o b
DoR(op, a, b, out, r) ==
  /\ out = "ok"
  /\ last' = Ev(op, a, b, <<>>, out, r)
  /\ CASE op \in {"new", "seed"} -> gens' = Put(gens, a[1], <<a[2]>>) /\ UNCHANGED <<memo, first>>
       [] op \in {"copy", "asg"} -> gens' = Put(gens, a[1], gens[a[2]]) /\ UNCHANGED <<memo, first>>
       [] op = "del"  -> gens' = [g \in DOMAIN gens \ {a[1]} |-> gens[g]] /\ UNCHANGED <<memo, first>>
       [] op \in Calls -> LET h == Append(gens[a[1]], Sig(op, a, b)) IN
                          /\ gens' = [gens EXCEPT ![a[1]] = h]
                          /\ (h \in DOMAIN memo => memo[h] = r)
                          /\ memo' = (IF h \in DOMAIN memo THEN memo ELSE Put(memo, h, r))
                          /\ UNCHANGED first
       [] op = "fresh" -> /\ \A s \in DOMAIN first : (s = a[1]) = (first[s] = r)
                          /\ first' = Put(first, a[1], r) /\ UNCHANGED <<gens, memo>>
=============================================================================
