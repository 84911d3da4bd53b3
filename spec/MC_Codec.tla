------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* Design: the implementation works on a string of bits.  TLC checks, for    *)
(* every string over the chosen bytes up to length N, that the bit-string     *)
(* algorithm computes Codec's encoding, that decoding inverts it (padded or   *)
(* not, NUL bytes included), and the same for URLs; every string is emitted.  *)
(***************************************************************************)
EXTENDS Codec, TLC, Json
CONSTANTS N, Letters
VARIABLE s
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
BitsOf(v, n) == [i \in 1..n |-> (v \div P2(n - i)) % 2]
RECURSIVE FromBits(_)
FromBits(q) == IF q = <<>> THEN 0 ELSE (2 * FromBits(Front(q))) + q[Len(q)]
Chop(q, n) == [k \in 1..(Len(q) \div n) |-> SubSeq(q, ((k - 1) * n) + 1, k * n)]
BitEncode(t) == LET q == FlattenSeq([i \in 1..Len(t) |-> BitsOf(t[i], 8)])
                    p == IF Len(q) % 6 = 0 THEN q ELSE q \o Rep(0, 6 - (Len(q) % 6))
                    c == Chop(p, 6)
                IN [k \in 1..Len(c) |-> Code(FromBits(c[k]))]
BitDecode(t) == LET u == SelectSeq(t, LAMBDA c : c # 61)
                    q == FlattenSeq([i \in 1..Len(u) |-> BitsOf(Value(u[i]), 6)])
                    c == Chop(q, 8)              \* left-over bits are dropped
                IN [k \in 1..Len(c) |-> FromBits(c[k])]
MInit == s = <<>> /\ last = Nothing
MNext == Len(s) < N /\ \E c \in Letters : s' = Append(s, c) /\ UNCHANGED last
MSpec == MInit /\ [][MNext]_<<s, last>>
SameEncoding == BitEncode(s) = Bare(s)
Inverts == /\ Decoded(Std(s)) = s /\ Plain(Std(s)) /\ Decoded(Bare(s)) = s
           /\ BitDecode(Std(s)) = s /\ BitDecode(Bare(s)) = s
PadLen == Len(Std(s)) % 4 = 0 /\ Len(Std(s)) = 4 * ((Len(s) + 2) \div 3)
UrlSame == UrlE(s) = UrlEG(s) /\ ((\A i \in 1..Len(s) : s[i] # 37) => UrlD(s, 1, <<>>) = [i \in 1..Len(s) |-> IF s[i] = 43 THEN 32 ELSE s[i]])
UrlInverts == UrlSame /\ UrlOk(UrlE(s), 1) /\ UrlD(UrlE(s), 1, <<>>) = s
              /\ \A i \in 1..Len(UrlE(s)) : Unreserved(UrlE(s)[i]) \/ UrlE(s)[i] = 37
Emit == PrintT(ToJson([s |-> s']))
=============================================================================
