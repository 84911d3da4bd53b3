------------------------------ MODULE TrieSet ------------------------------
(***************************************************************************)
(* Property C09.  A trie is a finite set of words; a word is a sequence of   *)
(* character codes (2, 3, ...) of the alphabet the trie was built with.      *)
(* ts: live tries -> set of words.  Tries do not influence each other.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Util
VARIABLES ts, al, last      \* al: alphabet of each trie
vars == <<ts, al, last>>
None == [x \in {} |-> 0]
Init == ts = None /\ al = None /\ last = Nothing
Start == ts' = None /\ al' = None /\ last' = Nothing
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Live(t) == t \in DOMAIN ts
(* code order: the end of a word comes before every character *)
RECURSIVE WordLess(_, _, _)
WordLess(u, v, i) == IF i > Len(v) THEN FALSE
                     ELSE IF i > Len(u) THEN TRUE
                     ELSE IF u[i] # v[i] THEN u[i] < v[i] ELSE WordLess(u, v, i + 1)
Sorted(S) == SetToSortSeq(S, LAMBDA u, v : WordLess(u, v, 1))
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o <<0>> \o Joined(Tail(q))
Ok(op, a, b, r) == last' = Ev(op, a, b, <<>>, "ok", r)
Words(b) ==  \* words separated by 0
  LET ends == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i] = 0)
  IN [k \in 1..Len(ends) |-> SubSeq(b, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k] - 1)]
(* largest code of each alphabet the harness knows *)
Top(k) == CASE k = 2 -> 53 [] k = 3 -> 255 [] k = 5 -> 11 [] OTHER -> 27
Over(t, b) == \A i \in 1..Len(b) : 2 <= b[i] /\ b[i] <= Top(al[t])
Do(op, a, b) ==
  LET t == a[1] IN
  CASE op = "new"  -> /\ ~Live(t) /\ ts' = Put(ts, t, {}) /\ al' = Put(al, t, a[2]) /\ Ok(op, a, b, <<0>>)
    [] op = "copy" -> /\ ~Live(t) /\ Live(a[2]) /\ ts' = Put(ts, t, ts[a[2]]) /\ al' = Put(al, t, al[a[2]]) /\ Ok(op, a, b, <<>>)
    [] op = "asg"  -> /\ Live(t) /\ Live(a[2]) /\ ts' = Put(ts, t, ts[a[2]]) /\ al' = Put(al, t, al[a[2]]) /\ Ok(op, a, b, <<>>)
    [] op = "del"  -> /\ Live(t) /\ ts' = [y \in DOMAIN ts \ {t} |-> ts[y]] /\ al' = [y \in DOMAIN al \ {t} |-> al[y]] /\ Ok(op, a, b, <<>>)
    [] op = "ins"  -> /\ Live(t) /\ Over(t, b) /\ ts' = [ts EXCEPT ![t] = @ \cup {b}] /\ UNCHANGED al
                      /\ Ok(op, a, b, <<Cardinality(ts[t] \cup {b})>>)
    [] op = "rem"  -> /\ Live(t) /\ Over(t, b) /\ ts' = [ts EXCEPT ![t] = @ \ {b}] /\ UNCHANGED al
                      /\ Ok(op, a, b, <<Cardinality(ts[t] \ {b})>>)
    [] op = "has"  -> Live(t) /\ Over(t, b) /\ UNCHANGED <<ts, al>> /\ Ok(op, a, b, <<Bit(b \in ts[t])>>)
    [] op = "hasall" -> Live(t) /\ (\A i \in 1..Len(b) : b[i] = 0 \/ Over(t, <<b[i]>>)) /\ UNCHANGED <<ts, al>>
                      /\ LET W == Words(b) IN Ok(op, a, b, [k \in 1..Len(W) |-> Bit(W[k] \in ts[t])])
    [] op = "iter" -> Live(t) /\ UNCHANGED <<ts, al>> /\ Ok(op, a, b, <<Cardinality(ts[t])>> \o Joined(Sorted(ts[t])))
=============================================================================
