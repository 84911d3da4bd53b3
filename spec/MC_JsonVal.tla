----------------------------- MODULE MC_JsonVal -----------------------------
(* Enumerates values, checks that writing and reading are inverse, emits them. *)
EXTENDS JsonText, TLC, Json
CONSTANTS Strs, Deep
VARIABLES x, d
S == << <<>>, <<97>>, <<34>>, <<92>>, <<97, 10, 92, 34>>, <<195, 169>>, <<1>>, <<8, 9, 12, 13, 47>>, <<92, 117>>, <<123, 58, 44>> >>
Leaf == {Null, BoolV(0), BoolV(1), IntV(0), IntV(7), IntV(-2147483647 - 1), IntV(2147483647), FloatV(0, 0, 0), FloatV(1, 150000000, -8), FloatV(-1, 123456789, 6)}
        \cup {StrV(S[i]) : i \in Strs}
MInit == x \in Leaf /\ d = 0 /\ last = Nothing
Wrap(y) == {ArrV(<<>>), ArrV(<<y>>), ObjV(<<>>)} \cup {ArrV(<<y, l>>) : l \in Leaf} \cup {ObjV(<<<<S[i], y>>>>) : i \in Strs}
           \cup {ObjV(PutKey(<<<<S[i], y>>>>, S[j], Null)) : i \in Strs, j \in Strs \cap {2, 3}}
MNext == d < Deep /\ d' = d + 1 /\ x' \in Wrap(x) /\ UNCHANGED last
MSpec == MInit /\ [][MNext]_<<x, d, last>>
Codec == ValueOf(Enc(x)) = x
RoundTrip == LET q == Parse(DumpText(x, 1, <<32, 32>>)) IN q.k = "val" /\ q.x = Six(x)
Emit == PrintT(ToJson([b |-> Enc(x')]))
=============================================================================
