------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Property C13: Base64 (RFC 4648, standard alphabet) and percent encoding   *)
(* of arbitrary bytes.  b = bytes, a = parameters.                          *)
(*   b64e a=<<length>>   encode (length -1: standard padding)                *)
(*   b64d                decode                                             *)
(*   b64r                decode(encode(b))                                   *)
(*   urle / urld / urlr  the same for URLs                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Util
VARIABLE last
vars == <<last>>
Init == last = Nothing
Start == last' = Nothing
(* ---- base 64 ---- *)
Code(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + (v - 26) ELSE IF v < 62 THEN 48 + (v - 52) ELSE IF v = 62 THEN 43 ELSE 47
Value(c) == IF 65 <= c /\ c <= 90 THEN c - 65 ELSE IF 97 <= c /\ c <= 122 THEN c - 71 ELSE IF 48 <= c /\ c <= 57 THEN c + 4
            ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
ByteAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
(* the sextets of s without padding: group g = 24 bits of bytes 3g+1..3g+3 *)
Sextets(s) == [k \in 1..(((Len(s) * 8) + 5) \div 6) |->
   LET g == (k - 1) \div 4
       w == (ByteAt(s, (3 * g) + 1) * 65536) + (ByteAt(s, (3 * g) + 2) * 256) + ByteAt(s, (3 * g) + 3)
   IN CASE (k - 1) % 4 = 0 -> w \div 262144
        [] (k - 1) % 4 = 1 -> (w \div 4096) % 64
        [] (k - 1) % 4 = 2 -> (w \div 64) % 64
        [] OTHER -> w % 64]
Rep(c, n) == [i \in 1..n |-> c]
Bare(s) == LET x == Sextets(s) IN [k \in 1..Len(x) |-> Code(x[k])]
Std(s) == LET x == Bare(s) IN x \o Rep(61, (4 - (Len(x) % 4)) % 4)
Encoded(s, n) == LET x == Bare(s) IN
                 IF n = -1 THEN Std(s)
                 ELSE IF n < Len(x) THEN <<>>            \* also n < -1
                 ELSE x \o Rep(61, n - Len(x))
(* bytes of a sextet sequence; bits that do not fill a byte are dropped *)
Bytes(x) == [k \in 1..((Len(x) * 6) \div 8) |->
   LET g == (k - 1) \div 3
       at(i) == ByteAt(x, i)
       w == (at((4 * g) + 1) * 262144) + (at((4 * g) + 2) * 4096) + (at((4 * g) + 3) * 64) + at((4 * g) + 4)
   IN CASE (k - 1) % 3 = 0 -> w \div 65536
        [] (k - 1) % 3 = 1 -> (w \div 256) % 256
        [] OTHER -> w % 256]
Trail(t) == LET n == SelectLastInSeq(t, LAMBDA c : c # 61) IN SubSeq(t, 1, n)
(* canonical text: alphabet characters, then only padding, no left-over bits *)
Plain(t) == LET u == Trail(t) IN
            /\ \A i \in 1..Len(u) : Value(u[i]) >= 0
            /\ Len(u) % 4 # 1
            /\ LET x == [i \in 1..Len(u) |-> Value(u[i])] IN Bare(Bytes(x)) = u
Decoded(t) == LET u == Trail(t) IN Bytes([i \in 1..Len(u) |-> Value(u[i])])
(* ---- percent encoding ---- *)
Unreserved(c) == (48 <= c /\ c <= 57) \/ (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122) \/ c \in {45, 46, 95, 126}
HexD(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexV(c) == IF 48 <= c /\ c <= 57 THEN c - 48 ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE IF 97 <= c /\ c <= 102 THEN c - 87 ELSE -1
Hex3(c, q) == IF q = 1 THEN 37 ELSE IF q = 2 THEN HexD(c \div 16) ELSE HexD(c % 16)
(* the general definition, and closed forms of two special cases that make very long strings tractable *)
UrlEG(s) == FlattenSeq([i \in 1..Len(s) |-> IF Unreserved(s[i]) THEN <<s[i]>> ELSE <<37, HexD(s[i] \div 16), HexD(s[i] % 16)>>])
UrlE(s) == IF TRUE = (\A i \in 1..Len(s) : Unreserved(s[i])) THEN s
           ELSE IF TRUE = (\A i \in 1..Len(s) : ~Unreserved(s[i])) THEN [j \in 1..(3 * Len(s)) |-> Hex3(s[((j - 1) \div 3) + 1], ((j - 1) % 3) + 1)]
           ELSE UrlEG(s)
RECURSIVE UrlOk(_, _), UrlD(_, _, _)
UrlOk(t, i) == IF i > Len(t) THEN TRUE
               ELSE IF t[i] # 37 THEN UrlOk(t, i + 1)
               ELSE IF i + 2 > Len(t) THEN FALSE
               ELSE IF HexV(t[i + 1]) < 0 \/ HexV(t[i + 2]) < 0 THEN FALSE
               ELSE UrlOk(t, i + 3)
UrlD(t, i, acc) == IF i > Len(t) THEN acc
                   ELSE IF t[i] = 43 THEN UrlD(t, i + 1, Append(acc, 32))
                   ELSE IF t[i] # 37 THEN UrlD(t, i + 1, Append(acc, t[i]))
                   ELSE UrlD(t, i + 3, Append(acc, (HexV(t[i + 1]) * 16) + HexV(t[i + 2])))
Legal(op, a, b) == op \in {"b64e", "b64d", "b64r", "urle", "urld", "urlr"}
DoR(op, a, b, out, r) ==
  /\ last' = Ev(op, a, b, <<>>, out, r)
  /\ out = "ok"
  /\ CASE op = "b64e" -> r = Encoded(b, a[1])
       [] op = "b64d" -> IF Plain(b) THEN r = Decoded(b) ELSE TRUE
       [] op = "b64r" -> r = b
       [] op = "urle" -> r = UrlE(b)
       [] op = "urld" -> IF TRUE = (\A i \in 1..Len(b) : b[i] # 37) THEN r = [i \in 1..Len(b) |-> IF b[i] = 43 THEN 32 ELSE b[i]]
                         ELSE IF UrlOk(b, 1) THEN r = UrlD(b, 1, <<>>) ELSE TRUE
       [] op = "urlr" -> r = b
=============================================================================
