------------------------------ MODULE MC_Func ------------------------------
(***************************************************************************)
(* Laws of the definitions on all small inputs: zipping is inverted by taking  *)
(* columns, filtering commutes with concatenation and is idempotent, mapping    *)
(* preserves length and order, and reading back the decimal text of an integer   *)
(* (surrounded by blanks, with either sign, followed by anything) gives it.      *)
(***************************************************************************)
EXTENDS Func, Json
CONSTANTS N, V
VARIABLES x, y, seen
Strs == UNION {[1..i -> 0..V] : i \in 0..N}
MInit == Init /\ x \in Strs /\ y \in Strs /\ seen = FALSE
MNext == ~seen /\ seen' = TRUE /\ UNCHANGED <<vars, x, y>>
MSpec == MInit /\ [][MNext]_<<vars, x, y, seen>>
ZipLaw == LET z == ZipOf(<<x, y>>)
              m == MinI(Len(x), Len(y))
          IN Len(z) = m /\ [i \in 1..m |-> z[i][1]] = SubSeq(x, 1, m) /\ [i \in 1..m |-> z[i][2]] = SubSeq(y, 1, m)
             /\ Parts(FlatT(z, 2), 1) = z /\ Parts(<<Len(x)>> \o x \o <<Len(y)>> \o y, 1) = <<x, y>>
MapLaw == \A f \in 0..4 : MapOf(f, x \o y) = MapOf(f, x) \o MapOf(f, y)
FilterLaw == \A f \in 0..5 : /\ FilterOf(f, x \o y) = FilterOf(f, x) \o FilterOf(f, y)
                             /\ FilterOf(f, FilterOf(f, x)) = FilterOf(f, x) /\ Len(FilterOf(f, x)) <= Len(x)
(* x as decimal digits (V <= 9), y as blanks around it *)
Blanks == [i \in 1..Len(y) |-> IF y[i] = 0 THEN 32 ELSE 8 + y[i]]
NumText == [i \in 1..Len(x) |-> 48 + (x[i] * 4)]
CastLaw == LET v == ValueOf([i \in 1..Len(x) |-> x[i] * 4]) IN
   /\ IntText(0, Blanks \o NumText \o <<32>> \o Blanks) = v /\ IntText(1, Blanks \o <<45>> \o NumText \o <<46, 57>>) = BNeg(v)
   /\ (x # <<>> => NearReal(BMul(v, Int2(1000000)), Real(Blanks \o NumText)) /\ NearReal(BMul(v, Int2(1000)), Real(NumText \o <<101, 45, 51>>)))
Emit == PrintT(ToJson([x |-> x, y |-> y]))
=============================================================================
