--------------------------------- MODULE Own ---------------------------------
(***************************************************************************)
(* Property C24: lifetimes.  objs: live objects -> <<type, value>>.           *)
(* Types 1..24 are values (copy, assignment, move), 30..32 cannot be copied.  *)
(* "tmp" evaluates operators on two objects and drops the results: it reports *)
(* the number of heap blocks that remain of them.  "live" reports the number  *)
(* of heap blocks held by the library; it is zero when no object is alive.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Util
VARIABLES objs, last
vars == <<objs, last>>
None == [x \in {} |-> 0]
Init == objs = None /\ last = Nothing
Start == objs' = None /\ last' = Nothing
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
O(k) == k \in DOMAIN objs
Value(k) == objs[k][1] < 30
Ok(op, a, r) == last' = Ev(op, a, <<>>, <<>>, "ok", r)
Do(op, a, b) ==
  CASE op = "new"  -> ~O(a[1]) /\ objs' = Put(objs, a[1], <<a[2], a[3]>>) /\ Ok(op, a, <<>>)
    [] op = "copy" -> ~O(a[1]) /\ O(a[2]) /\ Value(a[2]) /\ objs' = Put(objs, a[1], objs[a[2]]) /\ Ok(op, a, <<>>)
    \* construction or assignment from an object that is about to be destroyed
    [] op = "movc" -> ~O(a[1]) /\ O(a[2]) /\ Value(a[2]) /\ objs' = Put(Drop(objs, a[2]), a[1], objs[a[2]]) /\ Ok(op, a, <<>>)
    [] op = "mova" -> O(a[1]) /\ O(a[2]) /\ a[1] # a[2] /\ Value(a[2]) /\ objs[a[1]][1] = objs[a[2]][1]
                      /\ objs' = Put(Drop(objs, a[2]), a[1], objs[a[2]]) /\ Ok(op, a, <<>>)
    [] op = "asg"  -> O(a[1]) /\ O(a[2]) /\ Value(a[2]) /\ objs[a[1]][1] = objs[a[2]][1]
                      /\ objs' = Put(objs, a[1], objs[a[2]]) /\ Ok(op, a, <<>>)
    [] op = "mut"  -> O(a[1]) /\ objs' = [objs EXCEPT ![a[1]][2] = a[2]] /\ Ok(op, a, <<>>)
    [] op = "tmp"  -> O(a[1]) /\ O(a[2]) /\ objs[a[1]][1] = objs[a[2]][1] /\ UNCHANGED objs /\ Ok(op, a, <<0>>)
    [] op = "use"  -> O(a[1]) /\ UNCHANGED objs /\ Ok(op, a, <<objs[a[1]][2]>>)
    [] op = "del"  -> O(a[1]) /\ objs' = Drop(objs, a[1]) /\ Ok(op, a, <<>>)
    [] op = "live" -> DOMAIN objs = {} /\ UNCHANGED objs /\ Ok(op, a, <<0>>)
=============================================================================
