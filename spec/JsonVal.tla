------------------------------ MODULE JsonVal ------------------------------
(***************************************************************************)
(* JSON values and texts (properties C10, C11, C12).                        *)
(* A value is [t, v]: 0 null, 1 boolean <<b>>, 2 integer <<i>>,              *)
(* 3 float <<sign, m, e>> (m * 10^e, m has nine digits; zero is <<0,0,0>>),  *)
(* 4 string (bytes), 5 array (values), 6 object (<<key, value>> by key).     *)
(* A text is a sequence of bytes.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Util
Null == [t |-> 0, v |-> <<>>]
BoolV(b) == [t |-> 1, v |-> <<b>>]
IntV(i) == [t |-> 2, v |-> <<i>>]
FloatV(s, m, e) == [t |-> 3, v |-> <<s, m, e>>]
StrV(s) == [t |-> 4, v |-> s]
ArrV(q) == [t |-> 5, v |-> q]
ObjV(q) == [t |-> 6, v |-> q]

RECURSIVE SeqLess(_, _, _)
SeqLess(u, w, i) == IF i > Len(w) THEN FALSE
                    ELSE IF i > Len(u) THEN TRUE
                    ELSE IF u[i] # w[i] THEN u[i] < w[i] ELSE SeqLess(u, w, i + 1)
(* object entries: insert or overwrite *)
KeyAt(q, k) == SelectInSeq(q, LAMBDA p : p[1] = k)
PutKey(q, k, x) ==
  LET i == KeyAt(q, k) IN
  IF i # 0 THEN [q EXCEPT ![i] = <<k, x>>]
  ELSE SelectSeq(q, LAMBDA p : SeqLess(p[1], k, 1)) \o <<<<k, x>>>> \o SelectSeq(q, LAMBDA p : SeqLess(k, p[1], 1))

(* ---- flat encoding used in scripts and traces ---- *)
RECURSIVE Enc(_)
Enc(x) == CASE x.t = 4 -> <<4, Len(x.v)>> \o x.v
            [] x.t = 5 -> <<5, Len(x.v)>> \o FlattenSeq([i \in 1..Len(x.v) |-> Enc(x.v[i])])
            [] x.t = 6 -> <<6, Len(x.v)>> \o FlattenSeq([i \in 1..Len(x.v) |-> <<Len(x.v[i][1])>> \o x.v[i][1] \o Enc(x.v[i][2])])
            [] OTHER  -> <<x.t>> \o x.v
RECURSIVE Dec(_, _), DecItems(_, _, _, _), DecPairs(_, _, _, _)
(* -> [x: value, n: next position] *)
Dec(f, i) == CASE f[i] = 0 -> [x |-> Null, n |-> i + 1]
               [] f[i] = 1 -> [x |-> BoolV(f[i + 1]), n |-> i + 2]
               [] f[i] = 2 -> [x |-> IntV(f[i + 1]), n |-> i + 2]
               [] f[i] = 3 -> [x |-> FloatV(f[i + 1], f[i + 2], f[i + 3]), n |-> i + 4]
               [] f[i] = 4 -> [x |-> StrV(SubSeq(f, i + 2, i + 1 + f[i + 1])), n |-> i + 2 + f[i + 1]]
               [] f[i] = 5 -> DecItems(f, i + 2, f[i + 1], <<>>)
               [] f[i] = 6 -> DecPairs(f, i + 2, f[i + 1], <<>>)
DecItems(f, i, k, acc) == IF k = 0 THEN [x |-> ArrV(acc), n |-> i]
                          ELSE LET d == TLCEval(Dec(f, i)) IN DecItems(f, d.n, k - 1, TLCEval(Append(acc, d.x)))
DecPairs(f, i, k, acc) == IF k = 0 THEN [x |-> ObjV(acc), n |-> i]
                          ELSE LET key == SubSeq(f, i + 1, i + f[i])
                                   d == TLCEval(Dec(f, i + 1 + f[i]))
                               IN DecPairs(f, d.n, k - 1, TLCEval(PutKey(acc, key, d.x)))
ValueOf(f) == Dec(f, 1).x

(* ---- writing ---- *)
EscC(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
             [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] OTHER -> <<c>>
Esc(s) == FlattenSeq([i \in 1..Len(s) |-> EscC(s[i])])
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatDigits(n \div 10), 48 + (n % 10))
RECURSIVE NegDigits(_)     \* digits of -n for n <= 0 (INT_MIN has no positive counterpart)
NegDigits(n) == IF n > -10 THEN <<48 - n>> ELSE LET q == 0 - ((0 - (n + 10)) \div 10) - 1
                                               IN Append(NegDigits(q), 48 - (n - (q * 10)))
IntText(i) == IF i < 0 THEN <<45>> \o NegDigits(i) ELSE NatDigits(i)
Rep(c, n) == [i \in 1..n |-> c]
(* %.6f of m * 10^e; used for -15 <= e <= 6 *)
FloatText(s, m, e) ==
  LET d == IF m = 0 THEN <<48>> ELSE NatDigits(m)
      k == e + 6                        \* value * 10^6 = m * 10^k
      cut == 0 - k
      low == [i \in 1..Len(d) |-> d[i] - 48]
      RECURSIVE Pow(_)
      Pow(n) == IF n = 0 THEN 1 ELSE 10 * Pow(n - 1)
      scaled == IF k >= 0 THEN d \o Rep(48, k)
                ELSE IF cut > 9 THEN <<48>>
                ELSE NatDigits((m \div Pow(cut)) + (IF 2 * (m % Pow(cut)) >= Pow(cut) THEN 1 ELSE 0))
      full == IF Len(scaled) < 7 THEN Rep(48, 7 - Len(scaled)) \o scaled ELSE scaled
  IN (IF s < 0 THEN <<45>> ELSE <<>>) \o SubSeq(full, 1, Len(full) - 6) \o <<46>> \o SubSeq(full, Len(full) - 5, Len(full))
RECURSIVE Joined(_, _)
Joined(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Joined(Tail(q), sep)
Pad(d, tab) == FlattenSeq([i \in 1..d |-> tab])
(* the layout the library prints *)
RECURSIVE DumpText(_, _, _)
DumpText(x, d, tab) ==
  CASE x.t = 0 -> <<110, 117, 108, 108>>
    [] x.t = 1 -> IF x.v[1] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
    [] x.t = 2 -> IntText(x.v[1])
    [] x.t = 3 -> FloatText(x.v[1], x.v[2], x.v[3])
    [] x.t = 4 -> <<34>> \o Esc(x.v) \o <<34>>
    [] x.t = 5 -> <<91>> \o Joined([i \in 1..Len(x.v) |-> DumpText(x.v[i], d + 1, tab)], <<44, 32>>) \o <<93>>
    [] x.t = 6 -> <<123, 10>>
                  \o Joined([i \in 1..Len(x.v) |-> Pad(d, tab) \o <<34>> \o Esc(x.v[i][1]) \o <<34, 32, 58, 32>> \o DumpText(x.v[i][2], d + 1, tab)], <<44, 10>>)
                  \o <<10>> \o SubSeq(Pad(d, tab), 3, Len(Pad(d, tab))) \o <<125>>

(* ---- reading ----                                                         *)
(* Parse results: k = "val" (x: value, p: next position), "bad" (malformed,   *)
(* p: where), "any" (outside the specified language: only safety is required) *)
Val(x, p) == [k |-> "val", x |-> x, p |-> p]
Bad(p) == [k |-> "bad", x |-> Null, p |-> p]
Loose(p) == [k |-> "any", x |-> Null, p |-> p]
At(s, i) == IF i > Len(s) THEN -1 ELSE s[i]           \* -1: end of text
Digit(c) == 48 <= c /\ c <= 57
Hex(c) == Digit(c) \/ (65 <= c /\ c <= 70) \/ (97 <= c /\ c <= 102)
IsWs(c) == c \in {32, 9, 10, 13}
Odd(c) == c \in {0, 11, 12}                            \* treated leniently by the library
RECURSIVE Ws(_, _)
Ws(s, i) == IF IsWs(At(s, i)) THEN Ws(s, i + 1) ELSE i
Lit(s, i, w, x) == IF SubSeq(s, i, MinI(i + Len(w) - 1, Len(s))) = w THEN Val(x, i + Len(w))
                   ELSE Bad(IF i + Len(w) - 1 > Len(s) /\ SubSeq(s, i, Len(s)) = SubSeq(w, 1, Len(s) - i + 1) THEN Len(s) + 1 ELSE i)
RECURSIVE PStr(_, _, _)
PStr(s, i, acc) ==                                      \* i: after the opening quote
  LET c == At(s, i)
      d == At(s, i + 1)
      esc == CASE d = 34 -> 34 [] d = 92 -> 92 [] d = 47 -> 47 [] d = 98 -> 8 [] d = 102 -> 12
               [] d = 110 -> 10 [] d = 114 -> 13 [] d = 116 -> 9 [] OTHER -> -1
  IN CASE c = -1 -> Bad(i)
       [] c = 34 -> Val(StrV(acc), i + 1)
       [] c # 92 /\ c # -1 /\ c # 34 -> PStr(s, i + 1, TLCEval(Append(acc, c)))
       [] c = 92 -> IF d = -1 THEN Bad(i + 1)
                    ELSE IF esc # -1 THEN PStr(s, i + 2, TLCEval(Append(acc, esc)))
                    ELSE IF d = 117
                    THEN LET h == SelectInSeq(<<2, 3, 4, 5>>, LAMBDA j : ~Hex(At(s, i + j)))
                         IN IF h # 0 THEN Bad(i + h + 1)
                            ELSE PStr(s, i + 6, TLCEval(acc \o SubSeq(s, i, i + 5)))   \* kept as written
                    ELSE Loose(i)
RECURSIVE Span(_, _)
Span(s, i) == IF Digit(At(s, i)) THEN Span(s, i + 1) ELSE i     \* first non-digit
RECURSIVE NegInt(_)
(* -n for the digit string, 1 when it does not fit in int *)
NegInt(d) == IF d = <<>> THEN 0
             ELSE LET r == NegInt(Front(d))
                      k == d[Len(d)] - 48
                  IN IF r = 1 \/ r < -214748364 \/ (r = -214748364 /\ k > 8) THEN 1 ELSE (r * 10) - k
RECURSIVE Strip0(_)
Strip0(d) == IF d # <<>> /\ d[1] = 48 THEN Strip0(Tail(d)) ELSE d
RECURSIVE StripR(_)
StripR(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN StripR(Front(d)) ELSE d
(* decimal digits ip.fp * 10^x as a float value *)
DecFloat(neg, ip, fp, x) ==
  LET all == ip \o fp
      sig == StripR(Strip0(all))
      tz == Len(Strip0(all)) - Len(sig)                  \* trailing zeros removed
      e == (x - Len(fp)) + tz                            \* value = sig * 10^e
  IN IF sig = <<>> THEN [ok |-> TRUE, x |-> FloatV(0, 0, 0)]
     ELSE IF Len(sig) > 9 \/ e + Len(sig) > 280 \/ e < -280 THEN [ok |-> FALSE, x |-> Null]
     ELSE [ok |-> TRUE, x |-> FloatV(IF neg THEN -1 ELSE 1, 0 - NegInt(sig \o Rep(48, 9 - Len(sig))), e - (9 - Len(sig)))]
Ends(c) == c = -1 \/ IsWs(c) \/ c \in {44, 93, 125}
PNum(s, i) ==
  LET neg == At(s, i) = 45
      a == IF neg THEN i + 1 ELSE i
      b == Span(s, a)                                    \* integer part a..b-1
      hasF == At(s, b) = 46
      f == IF hasF THEN Span(s, b + 1) ELSE b            \* fraction b+1..f-1
      hasE == At(s, f) \in {69, 101}
      g == IF hasE /\ At(s, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
      h == IF hasE THEN Span(s, g) ELSE f
      ip == SubSeq(s, a, b - 1)
      fp == IF hasF THEN SubSeq(s, b + 1, f - 1) ELSE <<>>
      ok == ip # <<>> /\ (ip[1] = 48 => Len(ip) = 1) /\ (hasF => fp # <<>>)
      c == At(s, h)
      ex == NegInt(SubSeq(s, g, h - 1))
      x == IF ~hasE THEN 0 ELSE IF At(s, f + 1) = 45 THEN ex ELSE 0 - ex
      fl == DecFloat(neg, ip, fp, x)
      n == NegInt(ip)
  IN IF ~ok THEN Loose(i)
     ELSE IF hasE /\ h = g THEN (IF Odd(c) THEN Loose(h) ELSE Bad(h))
     ELSE IF Odd(c) \/ c \in {43, 45, 46, 69, 101} THEN Loose(h)
     ELSE IF ~Ends(c) THEN Bad(h)
     ELSE IF hasE /\ ex = 1 THEN Loose(h)
     ELSE IF hasF \/ hasE THEN (IF fl.ok THEN Val(fl.x, h) ELSE Loose(h))
     ELSE IF n = 1 \/ (~neg /\ n = -2147483647 - 1) THEN Loose(h)
     ELSE Val(IntV(IF neg THEN n ELSE 0 - n), h)
RECURSIVE PValue(_, _), PArr(_, _, _), PObj(_, _, _)
PValue(s, j) ==
  LET i == Ws(s, j)
      c == At(s, i)
  IN CASE c = 91 -> LET k == Ws(s, i + 1) IN IF At(s, k) = 93 THEN Val(ArrV(<<>>), k + 1) ELSE PArr(s, i + 1, <<>>)
       [] c = 123 -> LET k == Ws(s, i + 1) IN IF At(s, k) = 125 THEN Val(ObjV(<<>>), k + 1) ELSE PObj(s, i + 1, <<>>)
       [] c = 34 -> PStr(s, i + 1, <<>>)
       [] c = 116 -> Lit(s, i, <<116, 114, 117, 101>>, BoolV(1))
       [] c = 102 -> Lit(s, i, <<102, 97, 108, 115, 101>>, BoolV(0))
       [] c = 110 -> Lit(s, i, <<110, 117, 108, 108>>, Null)
       [] c = 45 \/ Digit(c) -> PNum(s, i)
       [] Odd(c) -> Loose(i)
       [] OTHER -> Bad(i)
PArr(s, i, acc) ==
  LET r == TLCEval(PValue(s, i)) IN
  IF r.k # "val" THEN r
  ELSE LET k == Ws(s, r.p)
           c == At(s, k)
       IN IF c = 44 THEN PArr(s, TLCEval(k + 1), TLCEval(Append(acc, r.x)))
          ELSE IF c = 93 THEN Val(ArrV(Append(acc, r.x)), k + 1)
          ELSE IF Odd(c) THEN Loose(k) ELSE Bad(k)
PObj(s, i, acc) ==
  LET j == Ws(s, i) IN
  IF At(s, j) # 34 THEN (IF Odd(At(s, j)) THEN Loose(j) ELSE Bad(j))
  ELSE LET key == TLCEval(PStr(s, j + 1, <<>>)) IN
       IF key.k # "val" THEN key
       ELSE LET k == Ws(s, key.p) IN
            IF At(s, k) # 58 THEN (IF Odd(At(s, k)) THEN Loose(k) ELSE Bad(k))
            ELSE LET r == TLCEval(PValue(s, k + 1)) IN
                 IF r.k # "val" THEN r
                 ELSE LET m == Ws(s, r.p)
                          c == At(s, m)
                          q == TLCEval(PutKey(acc, key.x.v, r.x))
                      IN IF c = 44 THEN PObj(s, m + 1, q)
                         ELSE IF c = 125 THEN Val(ObjV(q), m + 1)
                         ELSE IF Odd(c) THEN Loose(m) ELSE Bad(m)
Parse(s) == LET r == PValue(s, 1) IN
            IF r.k = "val" /\ Ws(s, r.p) <= Len(s) THEN Loose(r.p) ELSE r
=============================================================================
