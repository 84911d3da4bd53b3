------------------------------ MODULE Rational ------------------------------
(***************************************************************************)
(* Property C15.  objs: live Fractions -> <<numerator, denominator>> in       *)
(* lowest terms, denominator positive.  Calls are legal when the products the *)
(* textbook formulas need are representable in int.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Util
VARIABLES objs, last
vars == <<objs, last>>
None == [x \in {} |-> 0]
Init == objs = None /\ last = Nothing
Start == objs' = None /\ last' = Nothing
Live(o) == o \in DOMAIN objs
Put(x, v) == [y \in DOMAIN objs \cup {x} |-> IF y = x THEN v ELSE objs[y]]
IMax == 2147483647
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Frac(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN IF d < 0 THEN <<(0 - (IF n < 0 THEN 0 - (Abs(n) \div g) ELSE n \div g)), Abs(d) \div g>>
                                             ELSE <<(IF n < 0 THEN 0 - (Abs(n) \div g) ELSE n \div g), d \div g>>
Prod(x, y) == IF y = 0 THEN TRUE ELSE Abs(x) <= (IMax \div Abs(y))          \* x*y fits
SumFits(x, y) == Abs(x) <= IMax - Abs(y)
CrossFits(p, q) == IF Prod(p[1], q[2]) /\ Prod(p[2], q[1]) /\ Prod(p[2], q[2]) THEN SumFits(p[1] * q[2], p[2] * q[1]) ELSE FALSE
MulFits(p, q) == Prod(p[1], q[1]) /\ Prod(p[2], q[2])
DivFits(p, q) == Prod(p[1], q[2]) /\ Prod(p[2], q[1])
Fit(op, p, q) == CASE op \in {"add", "sub", "lt"} -> CrossFits(p, q) [] op = "mul" -> MulFits(p, q) [] OTHER -> DivFits(p, q)
RAdd(p, q) == Frac((p[1] * q[2]) + (p[2] * q[1]), p[2] * q[2])
RSub(p, q) == Frac((p[1] * q[2]) - (p[2] * q[1]), p[2] * q[2])
RMul(p, q) == Frac(p[1] * q[1], p[2] * q[2])
RDiv(p, q) == Frac(p[1] * q[2], p[2] * q[1])
RDo(op, p, q) == CASE op = "add" -> RAdd(p, q) [] op = "sub" -> RSub(p, q) [] op = "mul" -> RMul(p, q) [] OTHER -> RDiv(p, q)
Diff(p, q) == (p[1] * q[2]) - (p[2] * q[1])
Six(c) == <<Bit(c = 0), Bit(c # 0), Bit(c < 0), Bit(c <= 0), Bit(c > 0), Bit(c >= 0)>>
RECURSIVE Dec10(_)
Dec10(n) == IF n < 10 THEN <<48 + n>> ELSE Dec10(n \div 10) \o <<48 + (n % 10)>>
Text(p) == (IF p[1] < 0 THEN <<45>> ELSE <<>>) \o Dec10(Abs(p[1])) \o <<47>> \o Dec10(p[2])
Ok(op, a, b, r) == last' = Ev(op, a, b, <<>>, "ok", r)
Failed(op, a, b) == last' = Ev(op, a, b, <<>>, "error", <<>>) /\ UNCHANGED objs
(* arithmetic: b = <<name code>>: 1 add 2 sub 3 mul 4 div *)
Name(c) == CASE c = 1 -> "add" [] c = 2 -> "sub" [] c = 3 -> "mul" [] OTHER -> "div"
Result(op, a, b, x, y, z) == IF Name(b[1]) = "div" /\ y[1] = 0 THEN Failed(op, a, b)
   ELSE Fit(Name(b[1]), x, y) /\ LET v == RDo(Name(b[1]), x, y) IN objs' = Put(z, v) /\ Ok(op, a, b, v)
Do(op, a, b) ==
  LET o == a[1] IN
  CASE op = "new"   -> ~Live(o) /\ (IF a[3] = 0 THEN Failed(op, a, b)
                                   ELSE objs' = Put(o, Frac(a[2], a[3])) /\ Ok(op, a, b, Frac(a[2], a[3])))
    [] op = "newi"  -> ~Live(o) /\ objs' = Put(o, <<a[2], 1>>) /\ Ok(op, a, b, <<a[2], 1>>)
    [] op = "zero"  -> ~Live(o) /\ objs' = Put(o, <<0, 1>>) /\ Ok(op, a, b, <<0, 1>>)
    [] op = "del"   -> Live(o) /\ objs' = [y \in DOMAIN objs \ {o} |-> objs[y]] /\ Ok(op, a, b, <<>>)
    [] op = "asg"   -> Live(o) /\ Live(a[2]) /\ objs' = Put(o, objs[a[2]]) /\ Ok(op, a, b, objs[a[2]])
    [] op = "bin"   -> Live(o) /\ Live(a[2]) /\ ~Live(a[3]) /\ Result(op, a, b, objs[o], objs[a[2]], a[3])
    [] op = "bini"  -> Live(o) /\ ~Live(a[3]) /\ Result(op, a, b, objs[o], <<a[2], 1>>, a[3])       \* fraction op int
    [] op = "ibin"  -> Live(o) /\ ~Live(a[3]) /\ Result(op, a, b, <<a[2], 1>>, objs[o], a[3])       \* int op fraction
    [] op = "cmpd"  -> Live(o) /\ Live(a[2]) /\ Result(op, a, b, objs[o], objs[a[2]], o)             \* compound
    [] op = "cmpi"  -> Live(o) /\ Result(op, a, b, objs[o], <<a[2], 1>>, o)
    [] op = "cmp"   -> Live(o) /\ Live(a[2]) /\ Fit("lt", objs[o], objs[a[2]]) /\ UNCHANGED objs /\ Ok(op, a, b, Six(Diff(objs[o], objs[a[2]])))
    [] op = "cmpn"  -> Live(o) /\ Fit("lt", objs[o], <<a[2], 1>>) /\ UNCHANGED objs /\ Ok(op, a, b, Six(Diff(objs[o], <<a[2], 1>>)))
    [] op = "see"   -> Live(o) /\ UNCHANGED objs /\ Ok(op, a, b, objs[o] \o Text(objs[o]))
=============================================================================
