------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* Properties C10 and C12: dumping and loading.  The calls are stateless;    *)
(* their results are constrained relationally.                              *)
(*   load b=text            value denoted by the text / error                *)
(*   dump a=<<depth, tab>> b=value   any text that denotes the value         *)
(*   esc  b=bytes           jsonEscape                                       *)
(*   again b=value          dump(load(dump v)) = dump v and load is equal     *)
(*   rep  a=<<kind, n>>     load of a large document with the text RepText    *)
(*   repd a=<<kind, n>>     load(dump v) of the value of that document        *)
(***************************************************************************)
EXTENDS JsonVal
VARIABLE last
vars == <<last>>
Init == last = Nothing
Start == last' = Nothing
(* what a dump preserves of a value: floats keep six decimals *)
RECURSIVE Six(_)
Six(x) == CASE x.t = 3 -> LET r == Parse(FloatText(x.v[1], x.v[2], x.v[3])) IN r.x
            [] x.t = 5 -> ArrV([i \in 1..Len(x.v) |-> Six(x.v[i])])
            [] x.t = 6 -> ObjV([i \in 1..Len(x.v) |-> <<x.v[i][1], Six(x.v[i][2])>>])
            [] OTHER -> x
(* Large documents given by a formula, so that sizes beyond what the         *)
(* recursive grammar can handle are covered; MC_JsonText checks for small n  *)
(* that the formula for the value agrees with the grammar on the text.       *)
Digit5(i, q) == (CASE q = 1 -> i \div 10000 [] q = 2 -> i \div 1000 [] q = 3 -> i \div 100 [] q = 4 -> i \div 10 [] OTHER -> i) % 10
Key5(i) == [q \in 1..5 |-> 48 + Digit5(i, q)]
RepText(k, n) ==
  CASE k = 0 -> <<91>> \o [j \in 1..(2 * n - 1) |-> IF j % 2 = 1 THEN 48 + ((j \div 2) % 10) ELSE 44] \o <<93>>
    [] k = 1 -> <<123>> \o FlattenSeq([i \in 1..n |-> <<34>> \o Key5(i - 1) \o <<34, 58, 48 + ((i - 1) % 10)>> \o (IF i = n THEN <<>> ELSE <<44>>)]) \o <<125>>
    [] k = 2 -> [j \in 1..n |-> 32] \o <<55>> \o [j \in 1..n |-> 10]
    [] k = 3 -> <<34>> \o [j \in 1..n |-> 97 + ((j - 1) % 26)] \o <<34>>
    [] k = 4 -> [j \in 1..n |-> 91] \o [j \in 1..n |-> 93]
    [] k = 5 -> <<91>> \o [j \in 1..(2 * n - 1) |-> IF j % 2 = 1 THEN 48 + ((j \div 2) % 10) ELSE 44]
    [] k = 6 -> <<34>> \o [j \in 1..n |-> 97 + ((j - 1) % 26)]
    [] OTHER -> [j \in 1..n |-> 91] \o [j \in 1..(n - 1) |-> 93]
RepBad(k) == k \in {5, 6, 7}
RepEnc(k, n) ==
  CASE k = 0 -> [j \in 1..(2 * n + 2) |-> IF j = 1 THEN 5 ELSE IF j = 2 THEN n ELSE IF j % 2 = 1 THEN 2 ELSE ((j - 4) \div 2) % 10]
    [] k = 1 -> [j \in 1..(8 * n + 2) |-> IF j = 1 THEN 6 ELSE IF j = 2 THEN n ELSE
                   LET i == (j - 3) \div 8  q == (j - 3) % 8 IN
                   IF q = 0 THEN 5 ELSE IF q <= 5 THEN 48 + Digit5(i, q) ELSE IF q = 6 THEN 2 ELSE i % 10]
    [] k = 2 -> <<2, 7>>
    [] k = 3 -> [j \in 1..(n + 2) |-> IF j = 1 THEN 4 ELSE IF j = 2 THEN n ELSE 97 + ((j - 3) % 26)]
    [] OTHER -> [j \in 1..(2 * n) |-> IF j % 2 = 1 THEN 5 ELSE IF j = 2 * n THEN 0 ELSE 1]
Legal(op, a, b) == IF op \in {"rep", "repd"} THEN a[1] \in 0..7 /\ a[2] \in 1..99999 ELSE op \in {"load", "dump", "esc", "again"}
DoR(op, a, b, out, r) ==
  /\ last' = Ev(op, a, b, <<>>, out, r)
  /\ CASE op = "load" -> LET p == Parse(b) IN
            CASE p.k = "val" -> out = "ok" /\ r = Enc(p.x)
              [] p.k = "bad" -> out = "error" /\ r = <<>>
              [] OTHER -> out \in {"ok", "error"}
       [] op = "dump" -> /\ out = "ok"
                         /\ LET p == Parse(r) IN p.k = "val" /\ p.x = Six(ValueOf(b))
       [] op = "rep" -> IF RepBad(a[1]) THEN out = "error" /\ r = <<>> ELSE out = "ok" /\ r = RepEnc(a[1], a[2])
       [] op = "repd" -> out = "ok" /\ r = RepEnc(a[1], a[2])
       [] op = "again" -> out = "ok" /\ r = <<1, 1, 1>>
       [] op = "esc" -> out = "ok" /\ r = Esc(b)
=============================================================================
