------------------------------ MODULE MatrixADT ------------------------------
(***************************************************************************)
(* Property C16.  objs: live matrices -> [n, m, e] (rows, columns, entries    *)
(* row by row).  b carries matrices as <<n, m, entries...>>.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Util, TLC
VARIABLES objs, last
vars == <<objs, last>>
None == [x \in {} |-> 0]
Init == objs = None /\ last = Nothing
Start == objs' = None /\ last' = Nothing
Live(o) == o \in DOMAIN objs
Put(x, v) == [y \in DOMAIN objs \cup {x} |-> IF y = x THEN v ELSE objs[y]]
Mat(n, m, f(_, _)) == [n |-> n, m |-> m, e |-> [k \in 1..(n * m) |-> f(((k - 1) \div m) + 1, ((k - 1) % m) + 1)]]
At(x, i, j) == x.e[((i - 1) * x.m) + j]
OfB(b) == [n |-> b[1], m |-> b[2], e |-> SubSeq(b, 3, Len(b))]
Flat(x) == <<x.n, x.m>> \o x.e
Same(x, y) == x.n = y.n /\ x.m = y.m
MAdd(x, y) == [x EXCEPT !.e = [k \in DOMAIN x.e |-> x.e[k] + y.e[k]]]
MSub(x, y) == [x EXCEPT !.e = [k \in DOMAIN x.e |-> x.e[k] - y.e[k]]]
RECURSIVE Dot(_, _, _, _, _)
Dot(x, y, i, j, k) == IF k = 0 THEN 0 ELSE (At(x, i, k) * At(y, k, j)) + Dot(x, y, i, j, k - 1)
MMul(x, y) == LET D(i, j) == Dot(x, y, i, j, x.m) IN TLCEval(Mat(x.n, y.m, D))
Iden(n) == LET D(i, j) == Bit(i = j) IN Mat(n, n, D)
RECURSIVE MPow(_, _)
MPow(x, k) == IF k = 0 THEN Iden(x.n) ELSE MMul(MPow(x, k - 1), x)
(* x^k with the bits of k given, most significant first: exponents beyond 32-bit integers *)
MPowBits(x, b) == FoldLeft(LAMBDA y, c : LET z == TLCEval(MMul(y, y)) IN IF c = 1 THEN TLCEval(MMul(z, x)) ELSE z, Iden(x.n), b)
RECURSIVE Dec10(_)
Dec10(v) == IF v < 10 THEN <<48 + v>> ELSE Dec10(v \div 10) \o <<48 + (v % 10)>>
IntText(v) == IF v < 0 THEN <<45>> \o Dec10(0 - v) ELSE Dec10(v)
RECURSIVE RowText(_, _, _)
RowText(x, i, j) == (IF j = 1 THEN <<>> ELSE <<44, 32>>) \o IntText(At(x, i, j)) \o (IF j = x.m THEN <<10>> ELSE RowText(x, i, j + 1))
Text(x) == FlattenSeq([i \in 1..x.n |-> RowText(x, i, 1)])

(* ---- exact row reduction over the rationals (<<numerator, denominator>>) ---- *)
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN <<s * (IF n < 0 THEN 0 - (Abs(n) \div g) ELSE n \div g), Abs(d) \div g>>
QSub(p, q) == Q((p[1] * q[2]) - (p[2] * q[1]), p[2] * q[2])
QMul(p, q) == Q(p[1] * q[1], p[2] * q[2])
QDiv(p, q) == Q(p[1] * q[2], p[2] * q[1])
(* rows: sequence of sequences of rationals *)
Lead(row) == SelectInSeq(row, LAMBDA z : z[1] # 0)           \* 0: zero row
RECURSIVE Rref(_, _, _)
Rref(rows, done, c) ==          \* first "done" rows hold pivots; next column c
  IF rows = <<>> \/ done = Len(rows) THEN rows
  ELSE IF c > Len(rows[1]) THEN rows
  ELSE LET S == {i \in (done + 1)..Len(rows) : rows[i][c][1] # 0} IN
       IF S = {} THEN Rref(rows, done, c + 1)
       ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
                p == TLCEval([k \in 1..Len(rows[1]) |-> QDiv(rows[i][k], rows[i][c])])
                sw == [rows EXCEPT ![i] = rows[done + 1], ![done + 1] = p]
                el == TLCEval([r \in 1..Len(rows) |-> IF r = done + 1 THEN p
                        ELSE [k \in 1..Len(rows[1]) |-> QSub(sw[r][k], QMul(sw[r][c], p[k]))]])
            IN Rref(el, done + 1, c + 1)
Canon(rows) == Rref(TLCEval(rows), 0, 1)
Echelon(rows) ==      \* leading ones, strictly moving right, zero rows last
  /\ \A i \in 1..Len(rows) : LET l == Lead(rows[i]) IN l # 0 => rows[i][l] = <<1, 1>>
  /\ \A i \in 1..(Len(rows) - 1) : LET l == Lead(rows[i])
                                       k == Lead(rows[i + 1])
                                   IN k # 0 => l # 0 /\ l < k
Rows(x) == [i \in 1..x.n |-> [j \in 1..x.m |-> <<At(x, i, j), 1>>]]
(* result of reduce: numerators and denominators row by row *)
RowsOf(n, m, r) == [i \in 1..n |-> [j \in 1..m |-> <<r[(2 * (((i - 1) * m) + j)) - 1], r[2 * (((i - 1) * m) + j)]>>]]

Legal(op, a, b) ==
  LET o == a[1] IN
  CASE op \in {"new", "zeros", "ident"} -> ~Live(o)
    [] op = "copy" -> ~Live(o) /\ Live(a[2])
    [] op \in {"del", "get", "set", "str", "clear"} -> Live(o)
    [] op \in {"asg", "cmp", "addc", "subc", "mulc"} -> Live(o) /\ Live(a[2])
    [] op \in {"add", "sub", "mul"} -> Live(o) /\ Live(a[2]) /\ ~Live(a[3])
    [] op \in {"pow", "powb"} -> Live(o) /\ ~Live(a[3])
    [] op = "reduce" -> TRUE
    [] op = "quart" -> Len(b) = 2 + (2 * b[1] * b[2])
Becomes(z, v, out, r) == out = "ok" /\ r = Flat(v) /\ objs' = Put(z, v)
Fails(out, r) == out = "error" /\ r = <<>> /\ UNCHANGED objs
DoR(op, a, b, out, r) ==
  LET o == a[1] IN
  /\ last' = Ev(op, a, b, <<>>, out, r)
  /\ CASE op = "new"   -> Becomes(o, OfB(b), out, r)
       [] op = "zeros" -> LET Z(i, j) == 0 IN Becomes(o, Mat(a[2], a[3], Z), out, r)
       [] op = "ident" -> Becomes(o, Iden(a[2]), out, r)
       [] op = "copy"  -> Becomes(o, objs[a[2]], out, r)
       [] op = "asg"   -> Becomes(o, objs[a[2]], out, r)
       [] op = "del"   -> out = "ok" /\ r = <<>> /\ objs' = [y \in DOMAIN objs \ {o} |-> objs[y]]
       [] op = "clear" -> Becomes(o, [n |-> 0, m |-> 0, e |-> <<>>], out, r)
       [] op = "get"   -> out = "ok" /\ r = Flat(objs[o]) /\ UNCHANGED objs
       [] op = "set"   -> LET x == objs[o] IN Becomes(o, [x EXCEPT !.e[((a[2] - 1) * x.m) + a[3]] = a[4]], out, r)
       [] op = "str"   -> out = "ok" /\ r = Text(objs[o]) /\ UNCHANGED objs
       [] op = "cmp"   -> LET eq == Bit(objs[o] = objs[a[2]]) IN out = "ok" /\ r = <<eq, 1 - eq>> /\ UNCHANGED objs
       [] op \in {"add", "addc"} -> IF Same(objs[o], objs[a[2]]) THEN Becomes(IF op = "add" THEN a[3] ELSE o, MAdd(objs[o], objs[a[2]]), out, r) ELSE Fails(out, r)
       [] op \in {"sub", "subc"} -> IF Same(objs[o], objs[a[2]]) THEN Becomes(IF op = "sub" THEN a[3] ELSE o, MSub(objs[o], objs[a[2]]), out, r) ELSE Fails(out, r)
       [] op \in {"mul", "mulc"} -> IF objs[o].m = objs[a[2]].n THEN Becomes(IF op = "mul" THEN a[3] ELSE o, MMul(objs[o], objs[a[2]]), out, r) ELSE Fails(out, r)
       [] op = "pow"   -> IF objs[o].n = objs[o].m THEN Becomes(a[3], MPow(objs[o], a[2]), out, r)
                          ELSE IF a[2] > 1 THEN Fails(out, r) ELSE TRUE
       [] op = "powb"  -> objs[o].n = objs[o].m /\ Becomes(a[3], MPowBits(objs[o], b), out, r)
       (* fractional entries, in units of 1/4: comparison, sum, difference, and the product in 1/16 *)
       [] op = "quart" -> LET k == b[1] * b[2]
                              x == OfB(SubSeq(b, 1, 2 + k))
                              y == [x EXCEPT !.e = SubSeq(b, 3 + k, 2 + (2 * k))]
                              eq == Bit(x = y)
                          IN /\ out = "ok" /\ UNCHANGED objs
                             /\ r = <<eq, 1 - eq>> \o MAdd(x, y).e \o MSub(x, y).e \o (IF x.n = x.m THEN MMul(x, y).e ELSE <<>>)
       [] op = "reduce" -> /\ out = "ok" /\ UNCHANGED objs
                           /\ LET x == OfB(b)
                                  y == TLCEval(RowsOf(x.n, x.m, r))
                              IN Len(r) = 2 * x.n * x.m /\ Echelon(y) /\ Canon(y) = Canon(Rows(x))
=============================================================================
