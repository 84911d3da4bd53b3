------------------------------ MODULE MC_Matrix ------------------------------
(***************************************************************************)
(* Every N x M matrix over small entries: algebraic laws of MatrixADT, power  *)
(* by repeated squaring against repeated multiplication, and Gaussian          *)
(* elimination (top-down, as implemented) against the canonical reduced form; *)
(* matrices are emitted for replay.                                          *)
(***************************************************************************)
EXTENDS MatrixADT, Json
CONSTANTS N, M, Vals, K
VARIABLES x, y, phase
Ms == {[n |-> N, m |-> M, e |-> f] : f \in [1..(N * M) -> Vals]}
MInit == objs = None /\ last = Nothing /\ x \in Ms /\ y = x /\ phase = 0
MNext == /\ phase < K /\ phase' = phase + 1 /\ UNCHANGED <<x, vars>>
         /\ y' = [n |-> N, m |-> M, e |-> [k \in 1..(N * M) |-> y.e[(k % (N * M)) + 1] + (IF k = 1 THEN phase ELSE 0)]]
MSpec == MInit /\ [][MNext]_<<x, y, phase, vars>>
RECURSIVE PowSq(_, _)
PowSq(z, k) == IF k = 0 THEN Iden(z.n)
               ELSE LET h == PowSq(z, k \div 2)
                        s == MMul(h, h)
                    IN IF k % 2 = 1 THEN MMul(s, z) ELSE s
Square == N = M => /\ MPow(x, phase + 1) = PowSq(x, phase + 1)
                   /\ MMul(x, Iden(N)) = x /\ MMul(Iden(N), x) = x
                   /\ MMul(MAdd(x, y), x) = MAdd(MMul(x, x), MMul(y, x))
                   /\ MMul(MMul(x, y), x) = MMul(x, MMul(y, x))
Group == MSub(MAdd(x, y), y) = x /\ MAdd(x, y) = MAdd(y, x)
(* elimination below the pivots only *)
RECURSIVE Elim(_, _, _)
Elim(rows, i, c) ==
  IF i > N THEN rows ELSE IF c > M THEN rows
  ELSE LET S == {k \in i..N : rows[k][c][1] # 0} IN
       IF S = {} THEN Elim(rows, i, c + 1)
       ELSE LET k == CHOOSE a \in S : \A b \in S : a <= b
                p == TLCEval([j \in 1..M |-> QDiv(rows[k][j], rows[k][c])])
                sw == [rows EXCEPT ![k] = rows[i], ![i] = p]
                el == TLCEval([r \in 1..N |-> IF r <= i THEN sw[r] ELSE [j \in 1..M |-> QSub(sw[r][j], QMul(sw[r][c], p[j]))]])
            IN Elim(el, i + 1, c)
Reduces == LET z == TLCEval(Elim(TLCEval(Rows(x)), 1, 1)) IN Echelon(z) /\ Canon(z) = Canon(Rows(x)) /\ Canon(Canon(z)) = Canon(z)
Emit == phase = 0 => PrintT(ToJson([x |-> Flat(x), y |-> Flat(y')]))
=============================================================================
