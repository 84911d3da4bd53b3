------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Property C14.  objs: live BigNum<Cap> objects -> exact integer.           *)
(* Decimal text is a sequence of characters.  Operand b is either empty (the  *)
(* other operand is an object, a[2]) or the decimal text of an int64 value.   *)
(* A call is legal when every operand and result has at most Cap digits.      *)
(***************************************************************************)
EXTENDS BigDec
CONSTANT Cap
VARIABLES objs, last
vars == <<objs, last>>
None == [x \in {} |-> 0]
Init == objs = None /\ last = Nothing
Start == objs' = None /\ last' = Nothing
Live(o) == o \in DOMAIN objs
Put(x, v) == [y \in DOMAIN objs \cup {x} |-> IF y = x THEN v ELSE objs[y]]
Text(x) == (IF x.s < 0 THEN <<45>> ELSE <<>>) \o (IF x.s = 0 THEN <<48>> ELSE [i \in 1..Len(x.d) |-> 48 + x.d[Len(x.d) + 1 - i]])
Of(t) == LET neg == t[1] = 45
             u == IF neg THEN Tail(t) ELSE t
         IN Mk(IF neg THEN -1 ELSE 1, [i \in 1..Len(u) |-> u[Len(u) + 1 - i] - 48])
Fits(x) == Len(x.d) <= Cap
Ok(op, a, b, r) == last' = Ev(op, a, b, <<>>, "ok", r)
Arg(a, b) == IF b = <<>> THEN objs[a[2]] ELSE Of(b)
Arith(op, x, y) == CASE op \in {"add", "addc"} -> BAdd(x, y) [] op \in {"sub", "subc"} -> BSub(x, y) [] OTHER -> BMul(x, y)
Six(c) == <<Bit(c < 0), Bit(c <= 0), Bit(c > 0), Bit(c >= 0), Bit(c = 0), Bit(c # 0), c>>
(* a = <<target, other, new object>> *)
Do(op, a, b) ==
  LET o == a[1] IN
  CASE op = "new"  -> ~Live(o) /\ (LET v == IF b = <<>> THEN Zero ELSE Of(b) IN Len(b) <= Cap + Bit(b # <<>> /\ b[1] = 45) /\ objs' = Put(o, v) /\ Ok(op, a, b, Text(v)))
    [] op = "copy" -> ~Live(o) /\ Live(a[2]) /\ objs' = Put(o, objs[a[2]]) /\ Ok(op, a, b, Text(objs[a[2]]))
    [] op = "del"  -> Live(o) /\ objs' = [y \in DOMAIN objs \ {o} |-> objs[y]] /\ Ok(op, a, b, <<>>)
    [] op = "asg"  -> Live(o) /\ (b = <<>> => Live(a[2])) /\ (LET v == Arg(a, b) IN Fits(v) /\ objs' = Put(o, v) /\ Ok(op, a, b, Text(v)))
    [] op \in {"add", "sub", "mul"} -> /\ Live(o) /\ (b = <<>> => Live(a[2])) /\ ~Live(a[3])
                       /\ LET y == Arg(a, b)
                              z == Arith(op, objs[o], y)
                          IN Fits(y) /\ Fits(z) /\ objs' = Put(a[3], z) /\ Ok(op, a, b, Text(z))
    [] op \in {"addc", "subc", "mulc"} -> /\ Live(o) /\ (b = <<>> => Live(a[2]))
                       /\ LET y == Arg(a, b)
                              z == Arith(op, objs[o], y)
                          IN Fits(y) /\ Fits(z) /\ objs' = Put(o, z) /\ Ok(op, a, b, Text(z) \o Text(z))
    [] op \in {"inc", "dec"} -> /\ Live(o)      \* a[2] = 1: postfix, the old value is returned
                       /\ LET z == IF op = "inc" THEN BAdd(objs[o], One) ELSE BSub(objs[o], One)
                          IN Fits(z) /\ objs' = Put(o, z)
                             /\ Ok(op, a, b, Text(IF a[2] = 1 THEN objs[o] ELSE z) \o Text(z))
    [] op = "neg"  -> Live(o) /\ ~Live(a[3]) /\ objs' = Put(a[3], BNeg(objs[o])) /\ Ok(op, a, b, Text(BNeg(objs[o])))
    [] op = "abs"  -> Live(o) /\ ~Live(a[3]) /\ objs' = Put(a[3], BAbs(objs[o])) /\ Ok(op, a, b, Text(BAbs(objs[o])) \o Text(BAbs(objs[o])))
    [] op = "cmp"  -> Live(o) /\ (b = <<>> => Live(a[2])) /\ UNCHANGED objs
                       /\ (LET y == Arg(a, b) IN Fits(y) /\ Ok(op, a, b, Six(BCmp(objs[o], y)) \o <<CmpMag(objs[o].d, y.d)>>))
    [] op = "str"  -> Live(o) /\ UNCHANGED objs /\ Ok(op, a, b, Text(objs[o]))
    [] op = "dig"  -> Live(o) /\ UNCHANGED objs /\ a[2] < Len(objs[o].d) /\ Ok(op, a, b, <<Dig(objs[o].d, a[2] + 1), Dig(objs[o].d, a[2] + 1)>>)
=============================================================================
