#!/bin/bash
# Generates spec/Trace_<module>.tla: trace validation wrapper of a specification
# that offers Init, Start, Do(op, a, b), vars and last.
cd "$(dirname "$0")/../spec"
for m in "$@"; do
cat > Trace_$m.tla <<X
-------------------- MODULE Trace_$m --------------------
(* Accepts a recorded trace iff it is a behaviour of $m. *)
EXTENDS $m, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* diagnosis only: the result of the final call is left open *)
TFree == "FREE" \\in DOMAIN IOEnv
VARIABLE l
E == Trace[l]
Step == IF E.op = "reset" THEN Start ELSE Do(E.op, E.a, E.b)
Match == \\/ last' = E
         \\/ TFree /\\ l = Len(Trace) /\\ [last' EXCEPT !.out = E.out, !.r = E.r] = E
TInit == Init /\\ l = 1
TNext == l <= Len(Trace) /\\ l' = l + 1 /\\ Step /\\ Match
TSpec == TInit /\\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
             /\\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
X
done
