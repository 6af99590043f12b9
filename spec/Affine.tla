------------------------------- MODULE Affine -------------------------------
(* Affine maps x |-> m x + s over the rationals, as records [m, s].          *)
EXTENDS QMat
AMul(f, g)    == [m |-> QMM(f.m, g.m, Len(g.m)), s |-> QVAdd(QMV(f.m, g.s), f.s)]
APoint(f, p)  == QVAdd(QMV(f.m, p), f.s)
AVector(f, v) == QMV(f.m, v)
AId(n)        == [m |-> QIdent(n), s |-> QZeroV(n)]
AInv(f)       == LET i == QInverse(f.m) IN [m |-> i, s |-> QVNeg(QMV(i, f.s))]
AInvertible(f) == QDet(f.m) # "0"
AModZ(f)      == [m |-> f.m, s |-> [i \in 1..Len(f.s) |-> QMod1(f.s[i])]]
(* canonical texts in a square matrix and a vector of its size               *)
AValid(f, n)  == /\ Len(f.m) = n /\ Len(f.s) = n
                 /\ \A i \in 1..n : QValid(f.s[i]) /\ Len(f.m[i]) = n /\ \A j \in 1..n : QValid(f.m[i][j])
=============================================================================
