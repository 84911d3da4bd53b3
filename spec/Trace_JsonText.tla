-------------------- MODULE Trace_JsonText --------------------
(* Accepts a recorded trace iff it is a behaviour of JsonText. *)
EXTENDS JsonText, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* diagnosis only: is the final call one the specification speaks about? *)
TFree == "FREE" \in DOMAIN IOEnv
VARIABLE l
E == Trace[l]
Step == IF E.op = "reset" THEN Start /\ last' = E
        ELSE IF TFree /\ l = Len(Trace) THEN Legal(E.op, E.a, E.b) /\ UNCHANGED vars
        ELSE Legal(E.op, E.a, E.b) /\ DoR(E.op, E.a, E.b, E.out, E.r)
TInit == Init /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
             /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
