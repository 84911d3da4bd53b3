#!/bin/bash
# Generates spec/Trace_<module>.tla for specifications that constrain results
# relationally: they offer Init, Start, Legal(op, a, b), DoR(op, a, b, out, r).
cd "$(dirname "$0")/../spec"
for m in "$@"; do
cat > Trace_$m.tla <<Y
-------------------- MODULE Trace_$m --------------------
(* Accepts a recorded trace iff it is a behaviour of $m. *)
EXTENDS $m, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* diagnosis only: is the final call one the specification speaks about? *)
TFree == "FREE" \\in DOMAIN IOEnv
VARIABLE l
E == Trace[l]
Step == IF E.op = "reset" THEN Start /\\ last' = E
        ELSE IF TFree /\\ l = Len(Trace) THEN Legal(E.op, E.a, E.b) /\\ UNCHANGED vars
        ELSE Legal(E.op, E.a, E.b) /\\ DoR(E.op, E.a, E.b, E.out, E.r)
TInit == Init /\\ l = 1
TNext == l <= Len(Trace) /\\ l' = l + 1 /\\ Step
TSpec == TInit /\\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
             /\\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
Y
[ -f Trace_$m.cfg ] || printf 'SPECIFICATION TSpec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' > Trace_$m.cfg
done
