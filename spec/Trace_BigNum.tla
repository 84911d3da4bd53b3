-------------------- MODULE Trace_BigNum --------------------
(* Accepts a recorded trace iff it is a behaviour of BigNum. *)
EXTENDS BigNum, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* diagnosis only: the result of the final call is left open *)
TFree == "FREE" \in DOMAIN IOEnv
VARIABLE l
E == Trace[l]
Step == IF E.op = "reset" THEN Start ELSE Do(E.op, E.a, E.b)
Match == \/ last' = E
         \/ TFree /\ l = Len(Trace) /\ [last' EXCEPT !.out = E.out, !.r = E.r] = E
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step /\ Match
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
             /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
