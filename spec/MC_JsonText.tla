---------------------------- MODULE MC_JsonText ----------------------------
(***************************************************************************)
(* Enumerates every text of at most Depth tokens of which each proper prefix *)
(* can still become a document (texts are not extended past an error), and   *)
(* emits them for replay; checks sanity of the grammar.                     *)
(***************************************************************************)
EXTENDS JsonText, TLC, Json
CONSTANTS Depth, Toks
VARIABLES text, n
Tok == << <<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34, 97, 34>>, <<34>>, <<49>>, <<101>>, <<45>>, <<46>>, <<48>>,
          <<116, 114, 117, 101>>, <<110, 117>>, <<108, 108>>, <<32>>, <<92>>, <<98>>, <<43>>, <<120>>, <<102, 97, 108, 115, 101>>, <<117, 48, 48, 52, 49>> >>
MInit == text = <<>> /\ n = 0 /\ last = Nothing
Viable(s) == LET r == Parse(s) IN r.k = "val" \/ (r.k = "bad" /\ r.p > Len(s))
MNext == n < Depth /\ Viable(text) /\ \E i \in Toks : text' = text \o Tok[i] /\ n' = n + 1 /\ UNCHANGED last
MSpec == MInit /\ [][MNext]_<<text, n, last>>
(* a document stays the same document when white space is added around it *)
Blank == LET r == Parse(text) IN r.k = "val" => LET q == Parse(<<32, 10>> \o text \o <<9>>) IN q.k = "val" /\ q.x = r.x
(* no proper prefix of an array or object text is itself a document *)
Closed == LET r == Parse(text) IN r.k = "val" /\ r.x.t \in {5, 6} /\ Len(text) > 0 /\ text[Len(text)] \in {93, 125}
            => Parse(Front(text)).k = "bad"
(* writing and reading again is the identity *)
RoundTrip == LET r == Parse(text) IN r.k = "val" =>
                LET q == Parse(DumpText(Six(r.x), 1, <<32, 32>>)) IN q.k = "val" /\ q.x = Six(r.x)
(* the formulas for large documents agree with the grammar *)
ASSUME \A m \in 1..25 : \A k \in 0..7 :
         LET p == Parse(RepText(k, m)) IN IF RepBad(k) THEN p.k = "bad" ELSE p.k = "val" /\ Enc(p.x) = RepEnc(k, m)
Emit == PrintT(ToJson([s |-> text', k |-> Parse(text').k]))
=============================================================================
