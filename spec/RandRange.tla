------------------------------ MODULE RandRange ------------------------------
(***************************************************************************)
(* Property C19 (ranges): what one call of a generator may return, whatever   *)
(* the engine produced.  Real numbers are observed as order-preserving 64-bit  *)
(* keys, four base-65536 digits, most significant first; real arguments are    *)
(* given the same way in b.  a holds integer arguments (and, last, the engine  *)
(* outputs to replay, which the specification never looks at).                *)
(***************************************************************************)
EXTENDS BigDec, TLC
VARIABLE last
vars == <<last>>
Init == last = Nothing
Start == last' = Nothing
RECURSIVE LexLt(_, _, _)
LexLt(x, y, i) == IF i > 4 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LexLt(x, y, i + 1)
Lt(x, y) == LexLt(x, y, 1)
KeyAt(b, i) == SubSeq(b, i, i + 3)
Key0 == <<32768, 0, 0, 0>>          \* 0.0
Key1 == <<49136, 0, 0, 0>>          \* 1.0
InReal(v, lo, hi) == IF lo = hi THEN v = lo ELSE ~Lt(v, lo) /\ Lt(v, hi)
Legal(op, a, b) == TRUE
(* frequencies: n draws over k equally likely values; every count within 6 standard deviations *)
Near(c, n, k) == LET d == (c * k) - n IN d * d <= 36 * n * (k - 1) + (k * k)
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
Fair(r, n, k) == Len(r) = k /\ SumSeq(r, k) = n /\ \A i \in 1..k : Near(r[i], n, k)
Bad(op, a, b) ==       \* calls that must be reported
   CASE op = "int2" -> a[2] <= a[1] [] op = "int1" -> a[1] <= 0
     [] op = "dbl2" -> Lt(KeyAt(b, 5), KeyAt(b, 1)) [] op = "dbl1" -> Lt(KeyAt(b, 1), Key0)
     [] OTHER -> FALSE
Good(op, a, b, r) ==
   CASE op = "int2" -> Len(r) = 1 /\ a[1] <= r[1] /\ r[1] < a[2]
     [] op = "int1" -> Len(r) = 1 /\ 0 <= r[1] /\ r[1] < a[1]
     [] op = "int0" -> Len(r) = 1
     [] op = "bool" -> Len(r) = 1 /\ r[1] \in {0, 1}
     [] op = "dbl2" -> Len(r) = 4 /\ InReal(r, KeyAt(b, 1), KeyAt(b, 5))
     [] op = "dbl1" -> Len(r) = 4 /\ InReal(r, Key0, KeyAt(b, 1))
     [] op = "dbl0" -> Len(r) = 4 /\ InReal(r, Key0, Key1)
     [] op = "freq" -> Fair(r, a[1], a[2])       \* a = <<draws, buckets, ...>>
DoR(op, a, b, out, r) == (IF Bad(op, a, b) THEN out = "error" ELSE out = "ok" /\ Good(op, a, b, r)) /\ last' = Ev(op, a, b, <<>>, out, r)
=============================================================================
