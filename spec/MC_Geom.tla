------------------------------ MODULE MC_Geom ------------------------------
(***************************************************************************)
(* Every configuration on a small grid: the distance to a segment (decided by *)
(* the signs of two dot products) is the minimum over the points of the        *)
(* segment; the intersection lies on both lines; distances do not depend on    *)
(* which end the segment starts from.                                        *)
(***************************************************************************)
EXTENDS Geom, Json
CONSTANTS G, GI, K
VARIABLES P, A, v, B, w, kind, seen
mvars == <<P, A, v, B, w, kind, seen>>
Grid == ((0 - G)..G) \X ((0 - G)..G)
GridI == ((0 - GI)..GI) \X ((0 - GI)..GI)
MInit == /\ Init /\ seen = FALSE
         /\ \/ kind = "seg" /\ A \in (0..1) \X (0..1) /\ v \in Grid /\ P \in Grid /\ B = <<0, 0>> /\ w = <<1, 1>>
            \/ kind = "int" /\ A = <<1, 0>> /\ v \in GridI /\ B \in Grid /\ w \in Grid /\ P = <<0, 0>>
MNext == ~seen /\ seen' = TRUE /\ UNCHANGED <<vars, P, A, v, B, w, kind>>
MSpec == MInit /\ [][MNext]_<<vars, mvars>>
p == Vsub(P, A)
Off(i) == [j \in 1..2 |-> (K * p[j]) - (i * v[j])]                   \* K (P - A - (i/K) v)
SegMin == kind = "seg" => LET s == Seg2(P, A, v) IN
   /\ \A i \in 0..K : Leq(BMul(s[1], Int2(K * K)), BMul(s[2], Dot(Off(i), Off(i))))
   /\ \/ s[1] = BMul(s[2], Dot(p, p)) \/ s[1] = BMul(s[2], Dot(Vsub(p, v), Vsub(p, v)))          \* attained at an end
      \/ /\ Dot(v, p).s >= 0 /\ Leq(Dot(v, p), Dot(v, v))                                         \* or at t = v.p / v.v
         /\ BAdd(Sq(Dot(v, p)), Sq(Cross(v, p))) = BMul(Dot(v, v), Dot(p, p))
SegSym == kind = "seg" => LET s == Seg2(P, A, v)
                              t == Seg2(P, Vadd(A, v), [j \in 1..2 |-> 0 - v[j]]) IN BMul(s[1], t[2]) = BMul(t[1], s[2])
SegLine == (kind = "seg" /\ Dot(v, v).s > 0) => LET s == Seg2(P, A, v)
                                                    l == Line2(P, A, v) IN Leq(BMul(l[1], s[2]), BMul(s[1], l[2]))
OnBoth == (kind = "int" /\ Cross(v, w).s # 0) =>
   LET c == Cross(v, w)
       X(i) == InterNum(A, v, B, w, i)
       D(Q, i) == BSub(X(i), BMul(c, Int2(Q[i])))
   IN /\ BMul(D(A, 1), Int2(v[2])) = BMul(D(A, 2), Int2(v[1]))
      /\ BMul(D(B, 1), Int2(w[2])) = BMul(D(B, 2), Int2(w[1]))
Emit == PrintT(ToJson([kind |-> kind, P |-> P, A |-> A, v |-> v, B |-> B, w |-> w]))
=============================================================================
