----------------------------- MODULE MC_SegTree -----------------------------
(* Enumerates every behaviour of SegTree that starts with an array of length *)
(* at most MaxLen and makes Depth updates; each one is emitted for replay in  *)
(* the real code.  Also checks the algebraic laws of the queries.            *)
EXTENDS SegTree, TLC, Json, FiniteSets
CONSTANTS MinLen, MaxLen, Depth
Adds == {3, -2}
Muls == {-1, 0, 2}
VARIABLE hist
InitArr(n) == [i \in 1..n |-> CASE i = 1 -> 3 [] i = 2 -> -1 [] i = 3 -> 4 [] i = 4 -> 0 [] OTHER -> 5 - i]
MInit == Init /\ hist = <<>>
MNext ==
  /\ \/ hist = <<>> /\ \E n \in MinLen..MaxLen : New(0, InitArr(n))
     \/ /\ hist # <<>> /\ Len(hist) <= Depth
        /\ \E i \in 0..(Len(trees[0]) - 1) : \E j \in i..(Len(trees[0]) - 1) :
             \/ \E x \in Adds : Add(0, i, j, x)
             \/ \E x \in Muls : Mul(0, i, j, x)
  /\ hist' = Append(hist, last')
MSpec == MInit /\ [][MNext]_<<vars, hist>>
Emit == Len(hist') = Depth + 1 => PrintT(ToJson([h |-> hist']))
Laws ==
  \A i \in 0..(Len(trees[0]) - 1) : \A j \in i..(Len(trees[0]) - 1) :
    LET v == Seg(0, i, j) IN
      /\ AMin(v) <= AMax(v)
      /\ AMin(v) * Len(v) <= ASum(v) /\ ASum(v) <= AMax(v) * Len(v)
      /\ \A k \in i..(j - 1) :
           /\ ASum(v) = ASum(Seg(0, i, k)) + ASum(Seg(0, k + 1, j))
           /\ AMax(v) = MaxI(AMax(Seg(0, i, k)), AMax(Seg(0, k + 1, j)))
           /\ AMin(v) = MinI(AMin(Seg(0, i, k)), AMin(Seg(0, k + 1, j)))
=============================================================================
